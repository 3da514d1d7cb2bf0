"""C36: texts about values."""
from collections import OrderedDict
from datetime import date, datetime, time
from decimal import Decimal
from uuid import UUID

from gen import Gen
from nodes import codes, enc

from scheme.util import StructureFormatter, abbreviate_string, format_structure, indent, minimize_string, pluralize

WORDS = ['a', 'b', 'name', 'password', 'secret', 'id', 'A', '', 'two words', "it's", 'é', 'z9', '_', 'a,', '1', '10', '2']
STRINGS = ['', 'x', 'text', 'some longer text here', "it's", '"quoted"', '''both ' and "''', 'a\nb', 'a\\b', '\t', '\x00\x7f', 'é',
           ', ', 'x,', '[', ']', '{}', '***', '!!!!!!!!', 'abc...def', 'ab,cd', ' lead', 'trail ', 'a' * 30, 'b' * 56, '#' * 9, 'ab-!-cd']
SCALARS = [None, True, False, 0, 1, -1, 7, 12345678901234567890, 1.5, -0.0, 1e100, float('inf'), Decimal('1.50'), date(2020, 1, 2),
           time(3, 4, 5), datetime(2020, 1, 2, 3, 4, 5), b'bytes', UUID(int=5)]
NOUNS = ['item', 'life', 'wife', 'bureau', 'beau', 'wolf', 'half', 'box', 'bus', 'quiz', 'church', 'month', 'graph', 'death', 'watch', 'dish',
         'city', 'day', 'key', 'soliloquy', 'guy', 'h', 'y', 'x', '', 'ife', 'eau', 'lf', 'uy', 'quy', 'qy', 'oh', 'high', 'sky', 'roof', 'Box', 'S',
         'BY', 'by ', 'leaf-y', '9h', ' h', 'rhythm', 'elf', 'cliff', 'ay', 'ch', 'lh', 'staff life', 'lifes']


def scalar(g):
    return g.r.choice(STRINGS) if g.chance(0.5) else g.r.choice(SCALARS)


def structure(g, depth, kind=None):
    kind = kind or g.pick('dict', 'dict', 'list', 'list', 'tuple', 'scalar')
    if depth == 0 or kind == 'scalar':
        return scalar(g)
    n = g.pick(0, 1, 1, 2, 3, 5)
    if kind == 'dict':
        keys = g.r.sample(WORDS, n) if g.chance(0.8) else g.r.sample([0, 1, 2, 10, -3, 100, 20], n)
        return g.pick(dict, dict, OrderedDict)((k, structure(g, depth - 1)) for k in keys)
    if g.chance(0.25):      # about as long as one line may be
        items = [g.r.choice(['x' * k for k in (5, 8, 9, 10)] + [10 ** g.r.randint(3, 9)]) for _ in range(g.r.randint(4, 6))]
        total = sum(len(repr(x)) for x in items) + 2 * (len(items) - 1) + 2
        if total < 60 and g.chance(0.7):
            k = 60 - total + g.pick(0, 0, 1, 1, -1, 2) - 4
            if k >= 0:
                items.append('y' * k)
        return tuple(items) if kind == 'tuple' else items
    items = [structure(g, depth - 1, g.pick(None, 'scalar', 'scalar')) for _ in range(n)]
    return tuple(items) if kind == 'tuple' else items


def scrap(g):
    return ''.join(g.r.choice('ab1 -.,!é\t\n' if g.chance(0.7) else 'abcdefgh') for _ in range(g.pick(0, 1, 3, 4, 5, 6, 7, 8, 9, 12, 20)))


def scalars_of(v, out):
    if isinstance(v, dict):
        for x in v.values():
            scalars_of(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            scalars_of(x, out)
    elif not isinstance(v, (str, bool, int, type(None))):
        out.append([enc(v), codes(repr(v))])
    return out


def record(rec, what, v, fn, o=None, lvl=0, by=(), q=None, table=()):
    before = enc(v)
    r, out = 'ok', []
    try:
        out = codes(fn())
    except Exception as e:
        r = type(e).__name__
    o = dict(dict(indent=0, abbr=0, masks=[], first=0), **(o or {}))
    rec('print', what=what, v=before, o=o, lvl=lvl, by=list(by), q=enc(q), reps=list(table), r=r, out=out,
        mut=[] if enc(v) == before else ['argument'])


def c36(key, i, tier, rec):
    g = Gen(key)
    if i % 3 < 2:
        o = dict(indent=g.pick(4, 4, 2, 1, 0, 8), abbr=int(g.chance(0.25)),
                 masks=[codes(x) for x in g.r.sample(WORDS, g.pick(0, 0, 1, 2, 3))])
        masks = [''.join(map(chr, m)) for m in o['masks']]
        if not masks:
            masks = g.pick(None, [])
        form = StructureFormatter(bool(o['abbr']), masks, o['indent'])
        for _ in range(3):
            v = structure(g, g.pick(0, 1, 2, 2, 3, 3, 4), g.pick(None, 'dict', 'dict', 'list'))
            lvl = g.pick(0, 0, 0, 1, 2)
            table = scalars_of(v, [])
            if g.chance(0.5):
                record(rec, 'format', v, lambda: form.format(v, lvl) if lvl or g.chance(0.5) else form.format(v), o, lvl, table=table)
            elif o['indent'] == 4 and not o['abbr'] and not masks and not lvl:
                record(rec, 'format', v, lambda: format_structure(v), o, lvl, table=table)
            else:
                record(rec, 'format', v, lambda: format_structure(v, abbreviate=bool(o['abbr']), masks=masks, indent=o['indent'], level=lvl), o, lvl, table=table)
        return
    for _ in range(2):
        v = scrap(g) if g.chance(0.7) else g.r.choice(STRINGS)
        n = g.pick(0, 3, 4, 5, 6, 7, 8, 9, 10, 15, -1)
        record(rec, 'abbreviate', v, lambda: abbreviate_string(v, n) if n or g.chance(0.5) else abbreviate_string(v), lvl=max(n, 0))
        v = scrap(g) + g.pick('', '\n') + scrap(g)
        by, first = g.pick(0, 1, 2, 4, '', '> ', '\t'), g.pick(True, True, False)
        record(rec, 'indent', v, lambda: indent(v, by) if first and g.chance(0.5) else indent(v, by, first), dict(first=int(first)),
               by=codes(by if isinstance(by, str) else ' ' * by))
        v = ''.join(g.r.choice([' ', '  ', '\t', '\n', ' \n', '\u00a0', '\u2003', 'a', 'b', 'word', '.', '\x1f']) for _ in range(g.r.randint(0, 8)))
        record(rec, 'minimize', v, lambda: minimize_string(v))
        w = g.r.choice(NOUNS) if g.chance(0.6) else ''.join(g.r.choice('aeiouyhlfsxzqg') for _ in range(g.r.randint(0, 5)))
        q = g.pick(None, None, 0, 1, 2, 1.0, True, -1, 11, 1.5)
        record(rec, 'pluralize', w, lambda: pluralize(w) if q is None and g.chance(0.5) else pluralize(w, q), q=q)


CASES = {'C36': c36}
