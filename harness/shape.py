"""Real fields -> model field specifations, read from public attributes only."""
from nodes import codes, enc, NULL, nd

from scheme.field import Field, Undefined

LEAKS = {'enumeration': ('representation',), 'datetime': ('timezone',)}


def opt(v):
    return [] if v is None else [enc(v)]


def size(v):
    return [] if v is None else [v]


def tagged(fn):
    return getattr(fn, 'tag', 0) if fn else 0


def spec_of(f, seen=(), special=None):
    if isinstance(f, Undefined):
        return dict(ty='undefined', name=[])
    if not isinstance(f, Field):
        return dict(ty='broken:' + type(f).__name__, name=[])
    if any(f is x for x in seen):
        return dict(ty='loop', name=[] if f.name is None else [codes(f.name)])
    seen = seen + (f,)
    ty = f.type
    asp = [[k, enc(v), codes(k)] for k, v in sorted(f.aspects.items())
           if k not in LEAKS.get(ty, ()) and k != 'structural']
    s = dict(ty=ty, name=[] if f.name is None else [codes(f.name)], nonnull=int(bool(f.nonnull)),
             required=int(bool(f.required)), ignull=int(bool(f.ignore_null)), default=opt(f.default),
             constant=opt(f.constant), asp=asp, inst=tagged(f.instantiator), extr=tagged(f.extractor),
             pre='none' if not f.__dict__.get('preprocessor') else 'some',
             texts=[opt(f.title), opt(f.description), opt(f.notes)])
    sub = lambda x: spec_of(x, seen)
    if ty in ('integer', 'float', 'decimal', 'date', 'time', 'datetime'):
        s['min'], s['max'] = opt(f.minimum), opt(f.maximum)
    if ty in ('text', 'email', 'binary', 'sequence'):
        s['minl'], s['maxl'] = size(f.min_length), size(f.max_length)
    if ty == 'datetime':
        s['utc'] = int(bool(f.utc))
    if ty == 'text':
        s['strip'] = int(bool(f.strip))
        s['pats'] = '' if f.pattern is None else f.pattern.pattern
    if ty == 'email':
        s['multiple'], s['extended'] = int(bool(f.multiple)), int(bool(f.extended))
    if ty == 'token':
        s['segs'] = size(f.segments)
    if ty == 'enumeration':
        s['enum'] = [enc(x) for x in f.enumeration]
        s['ign'] = [] if f.ignored_values is None else [[enc(x) for x in f.ignored_values]]
    if ty == 'sequence':
        s['item'], s['unique'] = sub(f.item), int(bool(f.unique))
    if ty == 'surrogate':
        s['valid'] = [] if f.valid_surrogates is None else [[codes(x) for x in f.valid_surrogates]]
    if ty == 'definition':
        s['valid'] = [] if f.valid_fields is None else [[codes(x) for x in f.valid_fields]]
    if ty == 'tuple':
        s['values'] = [sub(x) for x in f.values]
    if ty == 'union':
        s['fields'] = [sub(x) for x in f.fields]
    if ty == 'map':
        s['value'] = sub(f.value)
        s['key'] = [] if f.key is None else [sub(f.key)]
        s['reqkeys'] = [] if f.required_keys is None else [[enc(k) for k in f.required_keys]]
    if ty == 'structure':
        s['strict'] = int(bool(f.strict))
        s['korder'] = [] if f.key_order is None else [[codes(k) for k in f.key_order]]
        s['poly'], s['struct'], s['variants'] = [], [], []
        members = lambda st: [dict(k=codes(k), f=sub(v)) for k, v in st.items()]
        if f.polymorphic_on is not None:
            s['poly'] = [sub(f.polymorphic_on)]
            s['variants'] = [dict(id=enc(i), s=members(st)) for i, st in f.structure.items()]
        else:
            s['struct'] = members(f.structure)
    return s
