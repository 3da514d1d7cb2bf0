"""C22: schemas with placeholders, built, defined and used in every order."""
from build import Builder
from project import DETAIL
from cases_fields import TZ, process
from cases_ops import Interp, accepted, clean, extract, has, instantiate, interpolate, subject_of
from gen import Gen, STRUCTURAL
from nodes import codes, enc

from scheme.field import Undefined


class LGen(Gen):
    def sized(self, f, top=6):
        n = super(LGen, self).sized(f, top)
        return min(n, 2) if getattr(self, '_deep', 0) else n

    def container(self, f, sub):
        if f['ty'] == 'ref' and getattr(self, '_deep', 0) >= 1 and self.chance(0.25 + 0.15 * self._deep):
            return None
        return super(LGen, self).container(f, sub)


def positions(f, out=None):
    """every nested position which may hold a placeholder, as (holder, key)"""
    out = [] if out is None else out
    ty = f['ty']
    if ty == 'sequence':
        spots = [(f, 'item')]
    elif ty == 'map':
        spots = [(f, 'value')]
    elif ty == 'tuple':
        spots = [(f['values'], i) for i in range(len(f['values']))]
    elif ty == 'union':
        spots = [(f['fields'], i) for i in range(len(f['fields']))]
    elif ty == 'structure':
        ms = f['struct'] + f['common'] + [m for v in f['variants'] for m in v['s']]
        spots = [(m, 'f') for m in ms]
    else:
        spots = []
    for h, k in spots:
        out.append((h, k))
        positions(h[k], out)
    return out


def unions(f):
    """the member lists of every union inside"""
    out = [f['fields']] if f['ty'] == 'union' else []
    for h, k in positions(f):
        if h[k]['ty'] == 'union':
            out.append(h[k]['fields'])
    return out


def state(f, defined):
    """the specification as it stands: placeholders not yet defined are undefined"""
    if isinstance(f, dict):
        if f.get('ty') == 'ref':
            if f['id'] in defined:
                return f
            return dict(f, ty='undefined')
        return dict((k, state(v, defined)) for k, v in f.items())
    if isinstance(f, list):
        return [state(v, defined) for v in f]
    return f


class Late(Builder):
    """builds with the placeholders given"""

    def __init__(self, holes, log):
        super(Late, self).__init__()
        self.holes, self.log = holes, log


def c22(key, i, tier, rec):
    DETAIL[0] = i % 4 < 2    # what failures say of the fields refusing
    mode = i % 4            # 0, 1: processing; 2: extraction and instantiation; 3: interpolation
    kw = dict(pre=0.02, nan=False, default=0.15, constant=0.03, nonnull=0.15)
    if mode == 2:
        kw.update(inst=0.3, unmatched=0, asp=0.3, pre=0)
    if mode == 3:
        kw.update(pre=0)
    g = LGen(key, **kw)
    if mode == 2:
        g.p['structural'] = [t for t in STRUCTURAL if t != 'union']
    r = g.r
    n = g.pick(1, 1, 2, 2, 3)
    m = g.pick(1, 1, 2, 3)
    ref = lambda: dict(g.base('ref', name=[], pre='none', nonnull=0, id=r.randint(1, n)), inst=0, extr=0, asp=[])
    specs = []              # m schemas, then n definitions
    for j in range(m + n):
        top = j < m or g.chance(0.7)
        f = g.spec(g.pick(1, 2, 2) if top else 0, types=STRUCTURAL and (g.p['structural'] + ['structure'] if top else None))
        spots = positions(f)
        if j >= m:          # a definition may not be its own immediate alternative or default
            spots = [(h, k) for h, k in spots if not isinstance(h, list) or not any(h is u for u in unions(f))]
            for x in [f] + [h[k] for h, k in positions(f)]:
                if x['ty'] in STRUCTURAL or x['ty'] == 'field':
                    x['default'] = []
                if x['pre'] == 'const':
                    x['pre'] = 'ident'
        if spots and (j < m or g.chance(0.6)):
            for h, k in r.sample(spots, min(len(spots), g.pick(1, 1, 2, 3))):
                h[k] = ref()
        if not f['name']:
            f['name'] = [enc(g.pick('node', 'root', 'tree'))['n']]
        specs.append(f)
    schemas, defs = specs[:m], specs[m:]
    g.env = defs
    # a definition without a name gets that of the member it is put in place of
    plain = {}
    for h in range(n):
        uses = [(x, k) for f in specs for x, k in positions(f) if x[k]['ty'] == 'ref' and x[k]['id'] == h + 1]
        if len(uses) == 1 and g.chance(0.85):
            if g.chance(0.6):
                defs[h][g.pick('required', 'nonnull')] = 1
            defs[h]['name'] = [uses[0][0]['k']] if uses[0][1] == 'f' else []
            plain[h] = dict(defs[h], name=[])
    given = [g.chance(0.15) for _ in range(n)]      # Undefined(field): defined from the start
    holes, log = [None] * n, []
    # order of building definitions: those given at once need their own placeholders first
    built, late, made = {}, {}, {}
    defined = set()
    for h in range(n):
        holes[h] = Undefined()
    try:
        for h in range(n):
            if given[h] and not [1 for x, k in positions(defs[h]) if x[k]['ty'] == 'ref']:
                made[h] = Late(holes, log).build(plain.get(h, defs[h]))
                holes[h] = Undefined(made[h])
                defined.add(h + 1)
    except Exception as e:
        rec('build', x=type(e).__name__, f=defs[h])
        return
    todo = [('schema', j) for j in range(m)] + [('make', h) for h in range(n) if h not in made]
    todo += [('copy', r.randrange(m)) for _ in range(g.pick(0, 0, 1, 2))]
    r.shuffle(todo)
    while todo:
        what, j = todo.pop(0)
        try:
            if what == 'schema':
                b = Late(holes, log)
                built[j] = (b, b.build(schemas[j]))
            elif what == 'copy':
                full, extra = specs[j], None
                if j not in built or state(full, defined) != state(full, set()):
                    continue        # schemas which reach a definition are not copied
                if full['ty'] == 'structure' and not full['poly'] and g.chance(0.4):
                    full = dict(full)
                    if g.chance(0.5):
                        full['struct'] = full['struct'] + [dict(k=codes('extra'), f=dict(g.spec(0, types=['text', 'integer']), name=[codes('extra')]))]
                        extra = {'extra': built[j][0].build(full['struct'][-1]['f'])}
                    copy = built[j][1].extend(extra or {})
                else:
                    copy = built[j][1].clone()
                specs.append(full)
                built[len(specs) - 1] = (built[j][0], copy)
            elif what == 'make':
                b = Late(holes, log)
                made[j] = b.build(plain.get(j, defs[j]))
                late[j] = b
                todo.insert(r.randint(0, len(todo)), ('define', j))
            else:
                holes[j].define(made[j])
                defined.add(j + 1)
        except Exception as e:
            rec('build', x=type(e).__name__, f=(defs if what in ('make', 'define') else specs)[j])
            return
        for k in list(built):
            if g.chance(0.5 if todo else 1):
                probe(g, rec, mode, built[k], specs[k], defs, defined, 3 if not todo else 1)
        for k in list(made):
            if k in late and k not in plain and g.chance(0.15 if todo else 0.5):
                probe(g, rec, mode, (late[k], made[k]), defs[k], defs, defined, 1)


def large(v):
    """too large a value to be worth its time"""
    n, todo = 0, [enc(v)]
    while todo and n < 3000:
        x = todo.pop()
        n += 1
        todo.extend(x['c'])
    return n >= 3000


def probe(g, rec, mode, built, full, defs, defined, times):
    b, fld = built
    f = state(full, defined)
    env = state(defs, defined)
    for _ in range(times):
        g._deep = 0
        if mode in (0, 1):
            ser = g.pick(0, 1)
            ph = g.pick('in', 'in', 'out')
            v = g.candidate(full, ser and ph == 'in', g.pick(0, 0, 0.05, 0.2))
            if not large(v):
                process(rec, f, fld, v, ph, ser, f['ty'] == 'structure' and g.chance(0.12), env)
        elif mode == 2:
            if g.chance(0.5):
                got = accepted(g, full, Builder(defs).build(full))
                if not got or got[0] is None or large(got[0]):
                    continue
                v = got[0]
                if not has(full, lambda x: x['ty'] == 'union'):
                    instantiate(rec, f, fld, b, v, None, env)
            else:
                params = {}
                if g.chance(0.2):
                    k = g.pick('secret', 'level', 'label')
                    params[k] = g.r.choice(g.ASPECTS[k])
                strict = g.chance(0.5)
                v = subject_of(g, full, 0.15 if strict else 0.7)
                if not large(v):
                    extract(rec, f, fld, v, strict, params, env)
        else:
            it = Interp(g)
            v = it.value(full)
            if g.chance(0.1) and it.params:
                del it.params[g.r.choice(sorted(it.params))]
            if clean(v) and clean(it.params) and not large(v):
                interpolate(rec, f, fld, v, it.params, env)


CASES = {'C22': c22}
