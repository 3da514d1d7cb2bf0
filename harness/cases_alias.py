"""C11: calls leave their arguments and the schema alone, and results share nothing with them."""
from collections import OrderedDict

from build import Builder
from cases_fields import PHASE, TZ, build
from cases_ops import (Interp, accepted, bare, clean, filter_params, no_union, scribble, subject_of, sweep)
from facts import Facts
from gen import Gen, STRUCTURAL
from nodes import NS, Wrapped, codes, enc, nd
from project import outcome
from shape import spec_of

from scheme.field import Field

BOXES = (list, dict, OrderedDict)


def tag(v, ids):
    """the value, its containers numbered"""
    def special(x):
        if type(x) in BOXES:
            n = enc_flat(x, special)
            if id(x) in ids:
                n['n'] = [ids[id(x)]]
            return n
    return enc(v, special)


def enc_flat(x, special):
    if type(x) is list:
        return nd('list', (), [enc(y, special) for y in x])
    return nd('odict' if type(x) is OrderedDict else 'dict', (),
              [nd('kv', (), [enc(k, special), enc(y, special)]) for k, y in x.items()])


def boxes(v, out, seen=None):
    """every list and dict reachable, through fields and their attributes too"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return out
    if type(v) in BOXES or isinstance(v, tuple) or isinstance(v, (Field, Wrapped, NS)):
        seen.add(id(v))
    if type(v) in BOXES:
        out.append(v)
    if isinstance(v, dict):
        for k, x in list(v.items()):
            boxes(k, out, seen)
            boxes(x, out, seen)
    elif isinstance(v, (list, tuple)):
        for x in v:
            boxes(x, out, seen)
    elif isinstance(v, (Field, Wrapped, NS)):
        for x in list(v.__dict__.values()):
            boxes(x, out, seen)
    return out


def spoil(v, keep):
    """changes every container of a result which is not one of the caller's"""
    for b in boxes(v, []):
        if id(b) in keep:
            continue
        if isinstance(b, dict):
            b['spoilt'] = 'spoilt'
        else:
            b.append('spoilt')


def fresh(rec, call, f, fld, args, fn, times=3, **ev):
    """runs fn several times, spoiling what it returns"""
    mine = {}
    for a in args:
        for b in boxes(a, []):
            mine.setdefault(id(b), len(mine) + 1)
    schema = boxes(fld, [])
    ids = dict((id(b), 1000 + n) for n, b in enumerate(schema))
    ids.update(mine)
    before, nodes = spec_of(fld), [tag(a, mine) for a in args]
    outs, kept, mut = [], [], []
    for t in range(times):
        out, res = outcome(fn)
        if out['r'] == 'ok':
            out['v'] = tag(res, ids)
            spoil(res, mine)
            for b in boxes(res, []):
                ids.setdefault(id(b), 5000 + t)
        outs.append(out)
        kept.append(res)
        if [tag(a, mine) for a in args] != nodes:
            mut.append('argument')
            break
    fx = Facts(TZ)
    plain = [enc(a) for a in args]
    fx.collect(f, nodes, plain, [o['v'] for o in outs])
    if call == 'interpolate':
        fx.texts(nodes[1])
        fx.texts(plain[1])
        ev['params'] = nodes[1]
    rec('fresh', call=call, f=f, v=nodes[0], outs=outs, cx=fx.cx(), mut=mut, before=before, after=spec_of(fld), **ev)
    return [r for o, r in zip(outs, kept) if o['r'] == 'ok']


def c11(key, i, tier, rec):
    mode = i % 5
    kw = dict(pre=0.04, nan=False, asp=0.15)
    if mode in (2, 3):
        kw.update(pre=0, constant=0.03)
    if mode == 2:
        kw.update(inst=0.3, unmatched=0)
    g = Gen(key, **kw)
    g.p['scalars'] = g.p['scalars'] + ['field'] * 4
    if mode == 2:
        no_union(g)
    f = g.spec(g.pick(0, 1, 2, 2), types=g.pick(None, STRUCTURAL, ['structure']) if mode != 2 else g.pick(['structure'], g.p['structural']))
    opaque_defaults(g, f)
    b, fld = build(rec, f)
    if fld is None:
        return
    if mode in (0, 1):
        for j in range(3):
            ser = g.pick(0, 1)
            ph = g.pick('in', 'in', 'out')
            v = g.candidate(f, ser and ph == 'in', g.pick(0, 0, 0.1))
            partial = f['ty'] == 'structure' and g.chance(0.1)
            kw = dict(partial=True) if partial else {}
            fresh(rec, 'process', f, fld, [v], lambda: fld.process(v, PHASE[ph], bool(ser), **kw),
                  ph=ph, ser=int(ser), partial=int(partial))
    elif mode == 2:
        for j in range(2):
            got = accepted(g, f, fld)
            if got and got[0] is not None:
                v = got[0]
                fresh(rec, 'instantiate', f, fld, [v], lambda: fld.instantiate(v), key=enc(None))
            s = subject_of(g, f, 0.3)
            strict = g.chance(0.5)
            fresh(rec, 'extract', f, fld, [s], lambda: fld.extract(s, strict), strict=int(strict), params=[])
    elif mode == 3:
        for j in range(3):
            it = Interp(g)
            v = it.value(f)
            if clean(v) and clean(it.params):
                fresh(rec, 'interpolate', f, fld, [v, it.params], lambda: fld.interpolate(v, it.params))
    else:
        schema_ops(g, rec, f, fld)


def opaque_defaults(g, f):
    """defaults with containers inside"""
    def mark(h):
        if h['ty'] == 'field' and g.chance(0.6):
            h['default'] = [enc(g.pick([], {}, [[1], {'a': []}], {'k': [1, {'j': 2}]}, ([1], {}), [{'a': 1}]))]
        elif h['ty'] == 'map' and h['value']['ty'] == 'field' and g.chance(0.5):
            h['default'] = [enc(g.pick({}, {'a': [1]}, {'a': {'b': [2]}}))]
        elif h['ty'] == 'sequence' and h['item']['ty'] == 'field' and g.chance(0.5):
            h['default'] = [enc(g.pick([], [[1]], [{'b': [2]}]))]
    sweep(f, mark)


def schema_ops(g, rec, f, fld):
    """describing, reconstructing, filtering and so on, over and over"""
    start = spec_of(fld)

    def same(what, a, b, mut=()):
        rec('again', what=what, a=a, b=b, mut=list(mut))

    def unchanged(what):
        rec('unchanged', before=start, after=spec_of(fld), what='schema (%s)' % what)

    first = {}
    new = dict(g.base('boolean', name=[], nonnull=0), pre='none', asp=[], inst=0)
    for turn in range(2):
        for verbose in (False, True):
            params = dict(level=g.pick(0, [1]), label='x') if g.chance(0.4) and turn == 0 else first.get(('p', verbose))
            first.setdefault(('p', verbose), params)
            pb = enc(params)
            try:
                d = fld.describe(params, verbose) if params else fld.describe(verbose=verbose)
            except Exception as e:
                d = type(e).__name__
            node = enc(bare(d))
            same('description', first.setdefault(('d', verbose), node), node, [] if enc(params) == pb else ['parameters'])
            if isinstance(d, dict) and not params:
                again = enc(d)
                try:
                    r = Field.reconstruct(d)
                except Exception:
                    r = None
                if r is not None:
                    # the field and the description it was made from are independent
                    s = spec_of(r)
                    rec('again', what='description', a=again, b=enc(d), mut=[])
                    spoil(d, {})
                    rec('unchanged', before=s, after=spec_of(r), what='reconstructed field')
                    d2 = fld.describe(verbose=verbose)
                    again = enc(d2)
                    r2 = Field.reconstruct(d2)
                    rec('unchanged', before=s, after=spec_of(r2), what='second reconstruction')
                    if g.chance(0.5):
                        spoil_field(r2)
                        same('description', again, enc(d2))
            elif isinstance(d, dict):
                spoil(d, {})
            unchanged('describe')
    for turn in range(2):
        params = first.setdefault('f', filter_params(g))
        pb = enc(params)
        allp = first.setdefault('all', g.chance(0.5))
        try:
            sc = bool(fld.screen(**params))
            r = fld.filter(allp, **params)
            s = enc(sc), spec_of(r) if isinstance(r, Field) else dict(ty='none', name=[])
        except Exception as e:
            r, s = None, (enc(type(e).__name__), dict(ty='none', name=[]))
        same('screen', first.setdefault('sc', s[0]), s[0], [] if enc(params) == pb else ['parameters'])
        rec('unchanged', before=first.setdefault('fr', s[1]), after=s[1], what='filter result')
        unchanged('filter')
        c = fld.clone()
        rec('unchanged', before=start, after=spec_of(c), what='clone')
        spoil_field(c)
        unchanged('clone')
        n = [0]
        every = first.setdefault('t', g.pick(1, 2, 3))

        def tr(h):
            n[0] += 1
            return Builder().build(new) if n[0] % (every + 1) == 0 else None
        try:
            r = fld.transform(tr)
            s = spec_of(r) if isinstance(r, Field) else dict(ty='none', name=[])
        except Exception as e:
            s = dict(ty=type(e).__name__, name=[])
        rec('unchanged', before=first.setdefault('tr', s), after=s, what='transform result')
        unchanged('transform')


def spoil_field(f):
    """changes the plain containers a field holds, but not its nested fields"""
    for b in boxes(f, []):
        if isinstance(b, dict) and any(isinstance(x, Field) for x in b.values()):
            continue
        if isinstance(b, dict) and any(isinstance(x, dict) and any(isinstance(y, Field) for y in x.values()) for x in b.values()):
            continue
        if isinstance(b, list) and any(isinstance(x, Field) for x in b):
            continue
        if isinstance(b, dict):
            b['spoilt'] = 'spoilt'
        else:
            b.append('spoilt')


CASES = {'C11': c11}
