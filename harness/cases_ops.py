"""C10, C18, C21, C23, C24: defaults, descriptions, filters, interpolation, instantiation."""
import json

from build import Builder
import cases_fields
from cases_fields import TZ, build, process
from facts import Facts
from gen import Gen, SCALARS, STRUCTURAL
from nodes import NS, codes, dec, enc, nd, text
from project import outcome
from shape import spec_of

import scheme
from scheme.field import Field
from scheme.interpolation import Interpolator

PLAIN = [t for t in SCALARS]


def has(f, pred):
    """does some field inside f satisfy pred"""
    if isinstance(f, dict):
        if 'ty' in f and pred(f):
            return True
        return any(has(v, pred) for k, v in f.items() if k not in ('default', 'constant', 'enum', 'prev'))
    if isinstance(f, list):
        return any(has(v, pred) for v in f)
    return False


# ---------------------------------------------------------------- instantiation
def accepted(g, f, fld, tries=6, bad=0):
    """a value f accepts, as processed, or None"""
    for _ in range(tries):
        v = g.candidate(f, False, bad)
        try:
            return [fld.process(v, 'inbound')]
        except Exception:
            continue
    return None


def instantiate(rec, f, fld, b, v, key=None, env=()):
    del b.log[:]
    node, before = enc(v), enc(v)
    out, res = outcome(lambda: fld.instantiate(v) if key is None else fld.instantiate(v, key))
    log = list(b.log)
    fx = Facts(TZ).collect(f, list(env), node)
    rec('instantiate', f=f, v=node, key=enc(key), cx=fx.cx(env), out=out, log=log,
        mut=[] if enc(v) == before else ['value'])
    return out, res


def extract(rec, f, fld, subject, strict=True, params=None, env=(), orig=None):
    params = params or {}
    node, before = enc(subject), enc(subject)
    if strict and not params:
        out, res = outcome(lambda: fld.extract(subject))
    else:
        out, res = outcome(lambda: fld.extract(subject, strict, **params))
    fx = Facts(TZ).collect(f, list(env), node)
    rec('extract', f=f, v=node, strict=int(strict), params=[[k, enc(x)] for k, x in params.items()],
        cx=fx.cx(env), out=out, mut=[] if enc(subject) == before else ['value'],
        orig=[] if orig is None else [orig])
    return out, res


def no_union(g):
    g.p['structural'] = [t for t in STRUCTURAL if t != 'union']


def subject_of(g, f, objects=0.3):
    """a candidate for extraction, usually suitable"""
    r = g.r
    v = g.candidate(f, False, g.pick(0, 0, 0.08))

    def mess(f, v):
        if f['ty'] == 'ref':
            f = g.env[f['id'] - 1]
        ty = f['ty']
        if v is None:
            return v
        if ty == 'structure' and isinstance(v, dict):
            members = dict((text(m['k']), m['f']) for m in f['struct'] + f['common']
                           + [m for w in f['variants'] for m in w['s']])
            v = dict((k, mess(members[k], x) if k in members else x) for k, x in v.items())
            if g.chance(0.15):
                v[g.pick('zz', 'other')] = 1
            if g.chance(0.15) and v:
                v[r.choice(sorted(v, key=str))] = None
            if g.chance(objects) and all(isinstance(k, str) and k.isidentifier() for k in v):
                v = NS(**v)
        elif ty == 'sequence' and isinstance(v, list):
            v = [mess(f['item'], x) for x in v]
            if g.chance(0.2):
                v = tuple(v)
        elif ty == 'tuple' and isinstance(v, (list, tuple)):
            v = [mess(h, x) for h, x in zip(f['values'], v)]
            if g.chance(0.2):
                v = v + [1] if g.chance(0.5) else v[:-1]
            if g.chance(0.5):
                v = tuple(v)
        elif ty == 'map' and isinstance(v, dict):
            v = dict((k, mess(f['value'], x)) for k, x in v.items())
        if f.get('extr', 0) > 0 and g.chance(0.9):
            from nodes import Wrapped
            v = Wrapped(f['extr'], v, None)
        return v
    return mess(f, v) if g.chance(0.95) else g.junk()


def c24(key, i, tier, rec):
    kind = i % 4
    if kind in (0, 1):
        g = Gen(key, inst=0.5, unmatched=0, pre=0, nan=False)
        no_union(g)
        f = g.spec(g.pick(1, 2, 2, 3), types=g.pick(['structure'], ['sequence', 'tuple', 'map'], ['structure', 'map']))
        b, fld = build(rec, f)
        for j in range(3):
            if fld is None:
                return
            got = accepted(g, f, fld)
            if not got or got[0] is None:
                continue
            v = got[0]
            out, res = instantiate(rec, f, fld, b, v, g.pick(None, None, 'key', 3))
            if out['r'] == 'ok':
                extract(rec, f, fld, res, orig=enc(v))
        return
    if kind == 2:           # extraction of all sorts of subjects, screened or not
        g = Gen(key, inst=g_inst(i), unmatched=0.25, asp=0.5, pre=0, nan=False, union_extr=g_inst(i))
        f = g.spec(g.pick(0, 1, 2, 2), types=g.pick(None, None, ['union', 'structure']))
        b, fld = build(rec, f)
        for j in range(4):
            if fld is None:
                return
            params = {}
            if g.chance(0.4):
                k = g.pick('secret', 'level', 'label', 'required', 'nonnull')
                params[k] = g.pick(None, g.r.choice(g.ASPECTS.get(k, [True, False])))
            strict = g.chance(0.5)
            extract(rec, f, fld, subject_of(g, f, 0.15 if strict else 0.7), strict, params)
        return
    g = Gen(key, inst=0.4, unmatched=0.3, pre=0, nan=False, disc_inst=1)
    no_union(g)
    f = g.spec(2)
    b, fld = build(rec, f)
    for j in range(3):
        if fld is None:
            return
        got = accepted(g, f, fld)
        if got and got[0] is not None:
            instantiate(rec, f, fld, b, got[0], g.pick(None, 'k'))


def g_inst(i):
    return 0.3 if i % 8 < 4 else 0


# ---------------------------------------------------------------- interpolation
PNAMES = ['p', 'q', 'val', 'x1', 'deep', '_u']


FILTERS = {
    'box': lambda v: [v],
    'key': lambda v: {'k': v},
    'none': lambda v: None,
    'word': lambda v: 'w',
    'item': lambda v: v[0] if isinstance(v, (list, tuple)) and v else v,
    'same': lambda v: v,
}


class Interp(object):
    """values with references, and the parameters they refer to"""

    def __init__(self, g, filters=False):
        self.g, self.params = g, {}
        # the filters of the caller's interpolator: name -> what it makes of a value
        self.filters, self.made = {}, []
        if filters and g.chance(0.3):
            for kind in g.r.sample(sorted(FILTERS), g.r.randint(1, 4)):
                # also names the template language has filters of its own for
                self.filters[g.pick('f_' + kind, kind + '2', 'upper', 'first', 'list', 'Tidy')] = kind

    def ref(self, value):
        """a reference to a parameter with this value"""
        g = self.g
        name = g.r.choice(PNAMES) + str(len(self.params))
        if g.chance(0.25):
            sub = g.pick('a1', 'inner', 'z')
            self.params[name] = {sub: value}
            name = name + '.' + sub
        else:
            self.params[name] = value
        if g.chance(0.1):
            name = g.pick('missing', name + '.more', 'missing.more', 'p99')
        elif self.filters and g.chance(0.5):
            for _ in range(g.pick(1, 1, 2)):
                if g.chance(0.05):
                    name += '|unheard_of'
                    break
                fname = g.r.choice(sorted(self.filters))
                name += g.pick('|', ' | ', '|', ' |') + fname
                value = FILTERS[self.filters[fname]](value)
                self.made.append(value)
        return g.pick('${%s}', '${%s}', '${%s}', '${ %s }', ' ${%s}', '${%s}\n', '\t${ %s}  ') % name

    def scalar(self, f):
        g = self.g
        v = g.candidate(f, g.chance(0.3), 0.05)
        if v is None:
            return v
        if f['ty'] in ('text', 'email', 'token'):
            if g.chance(0.15):
                return v
            parts = []
            for _ in range(g.r.randint(1, 3)):
                parts.append(g.pick('', ' ', 'x', 'a b', '$', '{', '}', 'été', '\n', '$5', '%s', '$ {a}', '{p0}'))
                if g.chance(0.75):
                    parts.append(self.ref(v if g.chance(0.5) else g.pick(1, True, None, 1.5, 'word', [1, 'a'], '')))
            if g.chance(0.3):
                parts.append(g.pick('.', '\n', ' end', '$', '\n\n'))
            t = ''.join(parts)
            for a in ('{%', '{#', '\r', '#}', '%}'):
                t = t.replace(a, '')
            while '$${' in t:
                t = t.replace('$${', '${')
            return t
        if g.chance(0.5):
            if g.chance(0.3) and f['ty'] != 'structure':
                v = g.pick(str(v), v, 5, '7', 2.5, True, 'abc', None)
            return self.ref(v)
        if g.chance(0.1):
            return g.pick('$p0', '${p0', 'p0}', '{p0}', '${p0} ${q1}', 'x${p0}', '', ' ', '${p0}}')
        return v

    def value(self, f, deep=0):
        g = self.g
        ty = f['ty']
        if ty not in STRUCTURAL and ty != 'ref':
            return self.scalar(f)
        if g.chance(0.04):
            return g.junk()
        v = g.container(f, lambda h: self.value(h, deep + 1))
        if g.chance(0.12) and v is not None:
            v = self.ref(v)
        if isinstance(v, tuple) and g.chance(0.5):
            v = list(v)
        return v


def clean(v):
    """text the template language would itself interpret is out of scope"""
    if isinstance(v, str):
        return not any(a in v for a in ('{%', '{#', '\r', '\x85', '\u2028', '\u2029', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e'))
    if isinstance(v, dict):
        return all(clean(k) and clean(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(clean(x) for x in v)
    return True


def interpolator(names, filters, way):
    """an interpolator of the caller's, with what it has given to it or to its class"""
    functions = dict((k, FILTERS[kind]) for k, kind in filters.items())
    if not way:
        kw = {}
        if functions:
            kw['filters'] = functions
        if names:
            kw['globals'] = names
        return Interpolator(**kw)

    def named(k, kind):
        def function(v):
            return FILTERS[kind](v)
        function.__name__ = str(k)
        return function

    class Own(Interpolator):
        standard_filters = [named(k, kind) for k, kind in filters.items()]
    return Own(globals=names) if names else Own()


def interpolate(rec, f, fld, v, params, env=(), kf=None, names=(), filters=None, made=(), way=0):
    """names: the parameters an interpolator of the caller's provides, instead of the call;
    filters: the filters it has, of the kinds in FILTERS; way: how it is given them"""
    node, before = enc(v), enc(v)
    pnode, pbefore = enc(params), enc(params)
    given = dict((k, x) for k, x in params.items() if k not in names)
    if names or filters:
        own = interpolator(dict((k, params[k]) for k in names), filters or {}, way)
        out, res = outcome(lambda: fld.interpolate(v, given, own))
    else:
        out, res = outcome(lambda: fld.interpolate(v, params))
    more = [enc(x) for x in made]
    fx = Facts(TZ).collect(f, list(env), node, pnode, *more)
    for x in [pnode] + more:
        fx.texts(x)
    cx = fx.cx(env)
    if filters:
        cx['filters'] = [dict(name=codes(k), kind=filters[k]) for k in sorted(filters)]
    ev = dict(f=f, v=node, params=pnode, cx=cx, out=out,
              mut=[] if enc(v) == before and enc(params) == pbefore else ['value or parameters'])
    if kf:
        ev['kf'] = kf
    rec('interpolate', **ev)
    return out, res


def c23(key, i, tier, rec):
    g = Gen(key, pre=0, nan=False, constant=0)
    if i == 0:      # known: the template language rewrites carriage returns
        f = g.base('text', pre='none', minl=[], maxl=[], strip=1, pat=[], nonnull=0)
        f['pre'] = 'none'
        b, fld = build(rec, f)
        interpolate(rec, f, fld, 'a\r\nb${p}', {'p': 1}, kf='interpolation-carriage-return')
        return
    if i % 3 == 0:
        f = g.spec(0, types=[SCALARS[i // 3 % len(SCALARS)]])
    else:
        f = g.spec(g.pick(1, 2, 2))
    b, fld = build(rec, f)
    for j in range(4):
        if fld is None:
            return
        it = Interp(g, True)
        v = it.value(f)
        if not it.made and g.chance(0.1) and it.params:
            del it.params[g.r.choice(sorted(it.params))]
        if clean(v) and clean(it.params):
            some = sorted(it.params)
            names = g.r.sample(some, g.r.randint(1, len(some))) if some and g.chance(0.35) else ()
            interpolate(rec, f, fld, v, it.params, names=names, filters=it.filters, made=it.made,
                        way=g.pick(0, 0, 1))


# ---------------------------------------------------------------- defaults
def c10(key, i, tier, rec):
    g = Gen(key, default=0.7, pre=0.03, poly=0.3)
    f = g.spec(g.pick(1, 2, 2, 3), types=['structure'])
    b, fld = build(rec, f)
    if fld is None:
        return
    results = []
    shape0 = spec_of(fld)
    for j in range(4):
        ser = g.pick(0, 0, 1)
        ph = g.pick('in', 'in', 'in', 'out')
        v = g.candidate(f, ser and ph == 'in', g.pick(0, 0, 0.1))
        if isinstance(v, dict) and g.chance(0.7):
            for k in list(v):
                if g.chance(0.5) and not (f['poly'] and text(f['poly'][0]['name'][0]) == k):
                    del v[k]
        out, res = process(rec, f, fld, v, ph, ser, g.chance(0.15))
        if out['r'] == 'ok':
            scribble(res)
    ids = [[]]
    if f['poly']:
        ids += [[w['id']] for w in f['variants']] + [[enc(g.pick('nowhere', 99, None))]]
    elif g.chance(0.2):
        ids.append([enc('x')])
    for ident in ids:
        if ident and ident[0]['t'] == 'null':
            continue
        for sparse in (True, False):
            kw = {} if sparse and g.chance(0.5) else dict(sparse=sparse)
            call = (lambda: fld.generate_defaults(dec(ident[0]), **kw)) if ident else (lambda: fld.generate_defaults(**kw))
            for _ in range(2):
                out, res = outcome(call)
                fx = Facts(TZ).collect(f)
                rec('defaults', f=f, id=ident, sparse=int(sparse), out=out, cx=fx.cx(), mut=[])
                scribble(res)
    rec('unchanged', before=shape0, after=spec_of(fld), what='schema')
    v = {}
    if f['poly']:
        v[text(f['poly'][0]['name'][0])] = dec(f['variants'][0]['id'])
    process(rec, f, fld, v, 'in', 0)


def scribble(v, depth=0):
    """changes every container reachable in a result"""
    if depth > 6:
        return
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, depth + 1)
        v['scribbled'] = 'scribbled'
    elif isinstance(v, list):
        for x in v:
            scribble(x, depth + 1)
        v.append('scribbled')
    elif isinstance(v, tuple):
        for x in v:
            scribble(x, depth + 1)


# ---------------------------------------------------------------- descriptions
def bare(d):
    """without the leftover of cloning enumerations and datetimes (text derived from their parameters)"""
    if isinstance(d, dict):
        drop = {'enumeration': 'representation', 'datetime': 'timezone'}.get(d.get('fieldtype')) if isinstance(
            d.get('fieldtype'), str) else None
        drop = drop or object()
        return dict((k, bare(v)) for k, v in d.items() if k != drop)
    if isinstance(d, (list, tuple)):
        return type(d)(bare(x) for x in d)
    return d


def describe(rec, f, fld, verbose):
    out, res = outcome(lambda: fld.describe(verbose=verbose) if verbose else fld.describe())
    if out['r'] == 'ok':
        out['v'] = enc(bare(res))
    fx = Facts(TZ).collect(f)
    rec('describe', f=f, verbose=int(verbose), out=out, cx=fx.cx(), mut=[])
    return res if out['r'] == 'ok' else None


def c18(key, i, tier, rec):
    g = Gen(key, pre=0.02, asp=0.3, texts=0.3, inst=0.05, nan=False, default=0.4)
    g.p['extremes'] = 1
    f = g.spec(g.pick(0, 1, 2, 2))
    if i % 5 == 4:
        f = g.spec(g.pick(1, 2, 2), types=['structure', 'structure', 'sequence', 'tuple', 'map'])
        container_default(g, f)
    valid_defaults(g, f)
    b, fld = build(rec, f)
    if fld is None:
        return
    shape0 = spec_of(fld)
    for verbose in (False, True):
        d = describe(rec, f, fld, verbose)
        if d is None:
            continue
        if has(f, lambda h: h['default'] and h['ty'] in STRUCTURAL and not native(h['default'][0])):
            continue        # such defaults do not survive in native form: not natively serializable
        dnode = enc(bare(d))
        trips = [('plain', d)]
        if jsonable(f, d):
            trips.append(('json', json.loads(json.dumps(d))))
        for how, desc in trips:
            before = enc(desc)
            try:
                fld2 = Field.reconstruct(desc)
                shape, again = spec_of(fld2), enc(bare(fld2.describe(verbose=verbose)))
                x = ''
            except Exception as e:
                fld2, shape, again, x = None, dict(ty='failed', name=[]), nd('null'), type(e).__name__ + ': ' + str(e)[:200]
            fx = Facts(TZ).collect(f)
            rec('reconstruct', f=f, shape=shape, desc=dnode, again=again, how=how, x=x, cx=fx.cx(),
                mut=[] if enc(desc) == before else ['description'])
            if fld2 is not None and not verbose and equivalent(f):
                for j in range(3):
                    ser, ph = g.pick(0, 1, 1), g.pick('in', 'in', 'out')
                    v = g.candidate(f, ser and ph == 'in', g.pick(0, 0.1))
                    process(rec, f, fld2, v, ph, ser)
    rec('unchanged', before=shape0, after=spec_of(fld), what='schema')


def container_default(g, f):
    """a default holding nulls and nested values"""
    try:
        fld = Builder().build(dict(f, default=[], pre='none'))
        v = accepted(g, f, fld)[0]
        for k in list(v) if isinstance(v, dict) else []:
            if g.chance(0.25):
                v[k] = None
        v = fld.process(v, 'outbound')
        f['default'] = [enc(v)] if v else f['default']
    except Exception:
        pass


def valid_defaults(g, f):
    """defaults of containers must be valid for them to be described; give every other one up"""
    if isinstance(f, dict):
        if f.get('default') and f.get('ty') in STRUCTURAL:
            try:
                fld = Builder().build(dict(f, default=[], pre='none'))
                v = dec(f['default'][0])
                fld.process(v, 'outbound', True)
                if v is None or f['ty'] == 'union' or enc(fld.process(v, 'outbound')) != f['default'][0]:
                    raise ValueError
            except Exception:
                f['default'] = []
        for k, v in f.items():
            if k not in ('default', 'constant', 'enum', 'prev', 'ign'):
                valid_defaults(g, v)
    elif isinstance(f, list):
        for v in f:
            valid_defaults(g, v)


NATIVE = ('null', 'bool', 'int', 'float', 'str')


def native(n):
    return n['t'] in NATIVE or n['t'] in ('list', 'tuple', 'dict', 'kv') and all(native(x) for x in n['c'])


def equivalent(f):
    """nothing about f is lost in its description, and defaults read the same in either form"""
    def bad(h):
        if h['ty'] in ('ref', 'undefined'):
            return True
        if h['pre'] != 'none' or h['ty'] == 'text' and h['pat']:
            return True
        if h['constant'] and not native(h['constant'][0]):
            return True
        if h['default'] and (not native(h['default'][0]) or h['ty'] in STRUCTURAL):
            return True
        return False
    return not has(f, bad)


def jsonable(f, d):
    def odd(n):
        if n['t'] in ('tuple', 'bytes'):
            return True
        if n['t'] == 'kv' and n['c'][0]['t'] != 'str':
            return True
        if n['t'] == 'str' and any(0xd800 <= c < 0xe000 for c in n['n']):
            return True
        return any(odd(x) for x in n['c'])
    return not odd(enc(d))


# ---------------------------------------------------------------- screen, filter, transform, visit
def c21(key, i, tier, rec):
    kind = i % 3
    g = Gen(key, pre=0, asp=0.85, ids=kind == 2, nan=False, default=0.1, required=0.5)
    f = g.spec(g.pick(1, 2, 2, 3), types=g.pick(['structure'], ['structure'], ['structure', 'sequence', 'map', 'tuple', 'union']))
    if kind == 0:
        b, fld = build(rec, f)
        if fld is None:
            return
        for j in range(4):
            params = filter_params(g)
            fx = Facts(TZ).collect(f)
            out, res = outcome(lambda: fld.screen(**params))
            rec('screen', f=f, params=pairs(params), out=out, cx=fx.cx(), mut=[])
            for allp in (False, True):
                shape0 = spec_of(fld)
                if allp:
                    out, res = outcome(lambda: fld.filter(True, **params), special=lambda v: nd('null'))
                else:
                    out, res = outcome(lambda: fld.filter(**params), special=lambda v: nd('null'))
                isf = isinstance(res, Field)
                rec('filter', f=f, params=pairs(params), all=int(allp), r=out['r'],
                    res='same' if res is fld else 'drop' if res is None else 'new' if isf else 'odd', x=out['x'],
                    shape=spec_of(res) if isf else dict(ty='none', name=[]), cx=fx.cx())
                rec('unchanged', before=shape0, after=spec_of(fld), what='schema')
        return
    if kind == 1:
        b, fld = build(rec, f)
        if fld is None:
            return
        try:
            d = fld.describe()
        except Exception:
            return
        seen = []

        def cb(v):
            seen.append(v)
            return ('!', v)
        before = enc(d)
        out, res = outcome(lambda: Field.visit(d, cb))
        rec('visit', desc=enc(d), out=out, calls=len(seen), mut=[] if enc(d) == before else ['description'])
        return
    # transform
    acts = [0] * 14 + [1, 1, 2, 3, 4]

    def mark(h):
        h['asp'] = h.get('asp', []) + [['act', enc(g.r.choice(acts)), codes('act')]]
    sweep(f, mark)
    g2 = Gen(key + 'new', pre=0, nan=False, ids=0, asp=0)
    new = g2.spec(g.pick(0, 1))
    b, fld = build(rec, f)
    if fld is None:
        return
    seen = []

    def transformer(h):
        seen.append(h.aspects.get('id', -1))
        act = h.aspects.get('act', 0)
        return Builder().build(new) if act == 1 else False if act == 2 else h if act == 3 else True if act == 4 else None
    shape0 = spec_of(fld)
    out, res = outcome(lambda: fld.transform(transformer), special=lambda v: nd('null'))
    fx = Facts(TZ).collect(f, new)
    isf = isinstance(res, Field)
    rec('transform', f=f, new=new, r=out['r'], x=out['x'], same=int(res is fld), seen=seen,
        shape=spec_of(res) if isf else dict(ty='none', name=[]), cx=fx.cx())
    rec('unchanged', before=shape0, after=spec_of(fld), what='schema')


def sweep(f, fn):
    """calls fn on every field specification inside f, but not on generated discriminators"""
    if isinstance(f, list):
        for v in f:
            sweep(v, fn)
    elif isinstance(f, dict):
        if 'ty' in f:
            fn(f)
        for k, v in f.items():
            if k == 'poly' and f.get('auto'):
                continue
            if k not in ('default', 'constant', 'enum', 'prev', 'ign', 'asp', 'texts', 'reqkeys', 'pat', 'min', 'max'):
                sweep(v, fn)


def pairs(params):
    return [[k, enc(v)] for k, v in params.items()]


def filter_params(g):
    out = {}
    for k in g.r.sample(['level', 'secret', 'label', 'group', 'required', 'nonnull', 'name', 'nothing'], g.pick(0, 1, 1, 1, 2, 3)):
        if k == 'name':
            out[k] = g.pick('name', 'a', 'x', None)
        elif k in ('required', 'nonnull'):
            out[k] = g.pick(True, False, False)
        elif k == 'nothing':
            out[k] = g.pick(False, True, None)
        else:
            out[k] = g.r.choice(g.ASPECTS[k] + ([False, None] if k != 'group' else []))
    return out


# ---------------------------------------------------------------- polymorphic structures
def c06(key, i, tier, rec):
    if i % 2 == 0:
        return cases_fields.CASES['C06'](key, i, tier, rec)
    g = Gen(key, poly=1.0, pre=0, nan=False, inst=g_inst(i), disc_inst=1 if i % 3 == 0 else 0, constant=0)
    if i % 4 == 1:
        no_union(g)
    f = g.spec(2, types=['structure'])
    if i % 8 == 7:
        valid_defaults(g, f)
    b, fld = build(rec, f)
    if fld is None:
        return
    if i % 4 == 1:
        for j in range(3):
            got = accepted(g, f, fld)
            if got and got[0] is not None:
                instantiate(rec, f, fld, b, got[0])
            extract(rec, f, fld, subject_of(g, f), g.pick(True, False))
        return
    for j in range(3):
        it = Interp(g)
        v = it.value(f)
        if clean(v) and clean(it.params):
            interpolate(rec, f, fld, v, it.params)
    for ident in [[]] + [[w['id']] for w in f['variants']] + [[enc(g.pick('nowhere', 99, 'one', 1, [1]))]]:
        sparse = g.pick(True, False)
        out, res = outcome(lambda: fld.generate_defaults(dec(ident[0]), sparse) if ident else fld.generate_defaults(sparse=sparse))
        rec('defaults', f=f, id=ident, sparse=int(sparse), out=out, cx=Facts(TZ).collect(f).cx(), mut=[])
    if i % 8 == 7:
        describe(rec, f, fld, g.pick(True, False))


CASES = {'C06': c06, 'C10': c10, 'C18': c18, 'C21': c21, 'C23': c23, 'C24': c24}
