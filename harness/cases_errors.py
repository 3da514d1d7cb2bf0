"""C35: errors as values, and the fields holding them."""
import os

from build import Builder
from facts import Facts
from gen import Gen
from nodes import NULL, REGISTRY, codes, dec, enc, nd, register
from project import outcome

from scheme.exceptions import InvalidTypeError, StructuralError, ValidationError
from scheme.fields import Error

TZ = os.environ.get('VERIF_TZ', 'UTC')
KEYS = ['a', 'b', 'é', 'x y', '0', '', 1, 0, -3, 10 ** 20]
TOKENS = ['invalid', 'nonnull', 'required', 'x', 'é']
TEXTS = ['boom', '', 'not a %(field)s', 'é\n', '100%']


def one_error(g, text=0.3):
    if g.chance(text):
        return g.r.choice(TEXTS)
    e = {'token': g.r.choice(TOKENS)}
    if g.chance(0.5):
        e['message'] = g.r.choice(TEXTS)
    if g.chance(0.3):
        e[g.pick('title', 'detail', 'extra')] = g.junk()
    if g.chance(0.1):
        e.pop('token')
    return e


def written_structure(g, depth=2):
    """the serialized form of the structure of an error"""
    def item():
        r = g.r.random()
        if depth and r < 0.35:
            return written_structure(g, depth - 1)
        return [one_error(g, 0) for _ in range(g.pick(1, 1, 2, 0))]
    if g.chance(0.5):
        return [None if g.chance(0.4) else item() for _ in range(g.r.randint(0, 3))]
    return {g.r.choice(KEYS): item() for _ in range(g.r.randint(0, 3))}


def written(g):
    errors = None if g.chance(0.35) else [one_error(g, 0.2) for _ in range(g.pick(0, 1, 1, 2, 3))]
    if errors is not None and g.chance(0.1):
        errors = tuple(errors)
    v = [errors, None if g.chance(0.4) else written_structure(g)]
    return tuple(v) if g.chance(0.4) else v


def malformed(g):
    """mostly not the serialized form of an error"""
    r = g.r.random()
    good = list(written(g))
    if r < 0.2:
        return g.junk()
    if r < 0.4:
        good[0] = g.pick(0, False, True, '', 'abc', {}, {'token': 'x'}, 1.5, 7, b'', b'ab')
    elif r < 0.6:
        good[1] = g.pick(0, False, True, '', 'abc', 1.5, 7, b'', b'ab')
    elif r < 0.8:
        good = good[:1] if g.chance(0.5) else good + [g.pick(None, [], 'x')]
    elif r < 0.9:
        good = dict(enumerate(good)) if g.chance(0.5) else {'errors': good[0], 'structure': good[1]}
    else:
        good = []
    return good


class Pool(object):
    """errors, each known by its place"""

    def __init__(self, g):
        self.g, self.all = g, []
        REGISTRY.clear()

    def add(self, e):
        self.all.append(e)
        register('E%d' % len(self.all), e)
        return e

    def at(self, e):
        return 1 + next(i for i, x in enumerate(self.all) if x is e)

    def structure(self, reach, other=0.25):
        """a structure holding errors, none of those which lead back"""
        g = self.g
        items = []
        for _ in range(g.r.randint(0, 4)):
            if reach and g.chance(1 - other):
                items.append(g.r.choice(reach))
            else:
                items.append(g.pick(None, 'value', 7, [1], {'a': 2}))
        if g.chance(0.5):
            return items
        return dict(zip(g.r.sample(KEYS, len(items)), items))

    def special(self, v):
        if isinstance(v, StructuralError):
            for i, x in enumerate(self.all):
                if x is v:
                    return nd('ref', [i + 1])
            return nd('other', codes('error'))

    def seen(self):
        return [dict(errs=enc(list(e.errors)), st=enc(e.structure, self.special), sub=int(bool(e.substantive))) for e in self.all]

    def leads(self, e):
        """the errors reached from e"""
        out, todo = [], [e]
        while todo:
            x = todo.pop()
            if not any(x is y for y in out):
                out.append(x)
                st = x.structure
                todo.extend(y for y in (st.values() if isinstance(st, dict) else st or ()) if isinstance(y, StructuralError))
        return out


def new_error(g, pool, p=0.4):
    errs = [one_error(g) for _ in range(g.pick(0, 1, 1, 1, 2))]
    st = None
    if g.chance(p) and (not errs or g.chance(0.3)):
        st = pool.structure(list(pool.all))
    cls = g.pick(StructuralError, StructuralError, ValidationError, InvalidTypeError)
    last = errs[-1] if errs else None
    if isinstance(last, dict) and 'token' in last and g.chance(0.4) and not {'field', 'identity', 'structure', 'value'} & set(last):
        e = cls(*errs[:-1], structure=st, **last)
    else:
        e = cls(*errs, **({} if st is None and g.chance(0.5) else dict(structure=st)))
    return pool.add(e), errs, st


def step(op, o=0, r='ok', tok='', same=1, force=0, errs=(), st=(), v=NULL, out=NULL, obs=(), other=0):
    return {'op': op, 'o': o, 'r': r, 'tok': tok, 'same': int(same), 'force': force, 'errs': list(errs), 'st': list(st), 'v': v, 'out': out,
            'obs': list(obs), 'with': other}


def history(g, rec):
    pool, steps = Pool(g), []
    field = Error(name='err', nonnull=True)

    def note(op, **kw):
        steps.append(step(op, obs=pool.seen(), **kw))

    def fresh():
        e, errs, st = new_error(g, pool)
        note('new', errs=[enc(x) for x in errs], st=[] if st is None else [enc(st, pool.special)])

    for _ in range(g.r.randint(2, 4)):
        fresh()
    for _ in range(g.r.randint(6, 14)):
        e = g.r.choice(pool.all)
        o = pool.at(e)
        op = g.r.choice(['new', 'append', 'append', 'attach', 'attach', 'merge', 'serialize', 'serialize', 'serialize', 'serialize', 'emit',
                         'pass', 'unserialize', 'unserialize', 'accept', 'accept', 'again'])
        if len(pool.all) > 9 and op in ('new', 'unserialize', 'accept', 'again'):
            op = 'serialize'
        if op == 'new':
            fresh()
        elif op == 'append':
            x = one_error(g)
            res = e.append(x)
            note(op, o=o, errs=[enc(x)], same=res is e)
        elif op == 'attach':
            st = pool.structure([x for x in pool.all if not any(y is e for y in pool.leads(x))])
            res = e.attach(st)
            note(op, o=o, st=[enc(st, pool.special)], same=res is e)
        elif op == 'merge':
            x = g.r.choice(pool.all)
            if x is e:
                continue
            res = e.merge(x)
            note(op, o=o, other=pool.at(x), same=res is e)
        elif op == 'serialize':
            force = int(g.chance(0.4))
            res = e.serialize(force=True) if force else e.serialize()
            note(op, o=o, force=force, out=enc(res, pool.special))
        elif op == 'emit':
            res = field.process(e, 'outbound', True)
            note(op, o=o, out=enc(res, pool.special))
        elif op == 'pass':
            res = field.process(e, g.pick('inbound', 'outbound'), False) if g.chance(0.5) else field.process(e, 'inbound', True)
            note(op, o=o, same=res is e)
        elif op in ('unserialize', 'again'):
            v = written(g)
            if op == 'again':
                v = e.serialize()
                note('serialize', o=o, out=enc(v, pool.special))
            pool.add(StructuralError.unserialize(v))
            note('unserialize', v=enc(v))
        else:
            v = written(g) if g.chance(0.5) else malformed(g)
            if v is None:
                continue
            try:
                pool.add(field.process(v, 'inbound', True))
                note('accept', v=enc(v))
            except StructuralError as x:
                note('accept', v=enc(v), r='err', tok=x.errors[0]['token'])
            except Exception as x:
                note('accept', v=enc(v), r=type(x).__name__)
    rec('errors', steps=steps)


class ErrorGen(Gen):
    pool = None

    def spec_error(self):
        f = self.base('error')
        f['constant'], f['default'] = [], []
        return f

    def special_native(self, f):
        return self.r.choice(self.pool.all)

    def serialized(self, f):
        if f['ty'] != 'error':
            return Gen.serialized(self, f)
        r = self.r.random()
        return self.special_native(f) if r < 0.2 else malformed(self) if r < 0.3 else written(self)


def distinct(f):
    """errors are equal only to themselves; no two keys both nan"""
    if isinstance(f, dict):
        if f.get('ty') == 'sequence':
            f['unique'] = 0
        if f.get('ty') == 'map' and f['key'] and f['key'][0]['ty'] == 'float':
            f['key'] = []
        if f.get('ty') == 'error':
            f['constant'], f['default'] = [], []
        for x in f.values():
            distinct(x)
    elif isinstance(f, list):
        for x in f:
            distinct(x)


def fields(g, rec, i, f=None, v=None, kf=None):
    pool = Pool(g)
    for _ in range(4):
        new_error(g, pool)
    g.pool = pool
    faults = [dict(k=codes('E%d' % (n + 1)), errs=[enc(x) for x in e.errors], raw=0, cache=[],
                   st=[] if e.structure is None else [enc(e.structure, pool.special)]) for n, e in enumerate(pool.all)]
    f = f or g.spec(g.pick(0, 1, 1, 2), types=['error'] if i % 3 == 0 else ['structure', 'sequence', 'tuple', 'map', 'union'])
    distinct(f)
    try:
        fld = Builder().build(f)
    except Exception as e:
        rec('build', x=type(e).__name__, f=f)
        return

    def special(v):
        if isinstance(v, StructuralError) and not any(v is x for x in pool.all):
            return nd('read', [], [enc(list(v.errors)), enc(v.structure)])

    def carried(e):
        """is an error value among what the failing containers hold (known finding error-value-beside-failure)"""
        if any(e is x for x in pool.all) or type(e) is StructuralError:
            return True
        st = e.structure
        return any(carried(x) for x in (st.values() if isinstance(st, dict) else st or ()) if isinstance(x, StructuralError))

    def process(v, ph, ser):
        try:
            fld.process(v, {'in': 'inbound', 'out': 'outbound'}[ph], bool(ser))
        except StructuralError as e:
            if carried(e) and not kf:
                return
        except Exception:
            pass
        node, was = enc(v, special), enc(v, special)
        out, res = outcome(lambda: fld.process(v, {'in': 'inbound', 'out': 'outbound'}[ph], bool(ser)), special)
        cx = Facts(TZ).collect(f, node, out['v']).cx()
        cx['faults'] = faults
        ev = dict(f=f, v=node, ph=ph, ser=ser, partial=0, cx=cx, out=out, mut=[] if enc(v, special) == was else ['value'])
        if kf:
            ev['kf'] = kf
        rec('process', **ev)
        return res if out['r'] == 'ok' else None

    if kf:
        process(v(pool), 'in', 0)
        return
    for j in range(4):
        ser, ph = g.pick(0, 1, 1, 1), g.pick('in', 'in', 'out')
        v = g.candidate(f, ser and ph == 'in', g.pick(0, 0, 0.15))
        res = process(v, ph, ser)
        if ser and ph == 'in' and res is not None:
            back = process(res, 'out', 1)
            if back is not None:
                process(back, 'in', 1)
        elif ser and res is not None:
            process(res, 'in', 1)


def c35(key, i, tier, rec):
    g = ErrorGen(key, pre=0.02, inst=0, scalars=['error', 'error', 'integer', 'text'], default=0.15)
    if i == 0:
        f = g.base('structure', strict=1, poly=[], variants=[], common=[], korder=[], pre='none',
                   struct=[dict(k=codes('a'), f=g.base('error', pre='none')), dict(k=codes('b'), f=g.base('integer', min=[], max=[], pre='none'))])
        fields(g, rec, 0, f, lambda pool: {'a': pool.all[0], 'b': 'x'}, kf='error-value-beside-failure')
    if i % 2:
        history(g, rec)
    else:
        fields(g, rec, i // 2)


CASES = {'C35': c35}
