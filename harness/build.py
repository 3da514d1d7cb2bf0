"""Model field specifications -> real fields of scheme, built through the public constructors."""
import re
import sys

sys.path.insert(0, '/repo')
import scheme
from scheme import fields as F
from scheme.field import Field, Undefined
from nodes import Wrapped, dec, text

CLASSES = {'boolean': F.Boolean, 'integer': F.Integer, 'float': F.Float, 'decimal': F.Decimal,
           'text': F.Text, 'email': F.Email, 'token': F.Token, 'uuid': F.UUID,
           'enumeration': F.Enumeration, 'binary': F.Binary, 'date': F.Date, 'time': F.Time,
           'datetime': F.DateTime, 'field': Field, 'object': F.Object, 'error': F.Error,
           'definition': F.Definition, 'surrogate': F.Surrogate, 'structure': F.Structure,
           'sequence': F.Sequence, 'map': F.Map, 'tuple': F.Tuple, 'union': F.Union}


class Failing(Exception):
    pass


def preprocessor(f):
    if f['pre'] == 'ident':
        return lambda value: value
    if f['pre'] == 'raise':
        def fail(value):
            raise Failing('preprocessor')
        return fail
    if f['pre'] == 'const':
        return lambda value: dec(f['prev'])
    return None


def opt(f, key, fn=lambda x: x):
    return fn(f[key][0]) if f.get(key) else None


class Instantiator(object):
    """a callable which wraps values, counting its calls"""

    def __init__(self, tag, log):
        self.tag, self.log = tag, log

    def __deepcopy__(self, memo):
        return self

    def __call__(self, field, value, key=None):
        self.log.append(self.tag)
        return Wrapped(self.tag, value, key)


class Extractor(object):
    def __init__(self, tag):
        self.tag = tag

    def __deepcopy__(self, memo):
        return self

    def __call__(self, field, subject):
        if self.tag > 0 and type(subject) is Wrapped:
            return subject.value
        raise Failing('extractor')


class Builder(object):
    """Builds fields; refs go through Undefined placeholders."""

    def __init__(self, env=(), extra=None, classes=None):
        self.holes = [Undefined() for _ in env]
        self.open = {}
        self.extra = extra
        self.classes = classes or CLASSES
        self.env = list(env)
        self.log = []
        self.fields = []
        for f, hole in zip(self.env, self.holes):
            field = self.build(f)
            self.fields.append(field)
            hole.define(field)

    def params(self, f):
        p = {}
        if f['name']:
            p['name'] = text(f['name'][0])
        for key, attr in (('nonnull', 'nonnull'), ('required', 'required'), ('ignull', 'ignore_null')):
            if f[key]:
                p[attr] = True
        if f['default']:
            p['default'] = dec(f['default'][0])
        if f['constant']:
            p['constant'] = dec(f['constant'][0])
        pre = preprocessor(f)
        if pre:
            p['preprocessor'] = pre
        if f.get('inst'):
            p['instantiator'] = Instantiator(f['inst'], self.log)
        if f.get('extr'):
            p['extractor'] = Extractor(f['extr'])
        for a in f.get('asp', ()):
            p[a[0]] = dec(a[1])
        for k, x in zip(('title', 'description', 'notes'), f.get('texts', ())):
            if x:
                p[k] = dec(x[0])
        if self.extra:
            p.update(self.extra(f) or {})
        return p

    def build(self, f):
        ty = f['ty']
        if ty == 'undefined':
            hole = Undefined()
            self.open.setdefault(f.get('id', 0), []).append(hole)
            return hole
        if ty == 'ref':
            return self.holes[f['id'] - 1]
        cls = self.classes[f.get('cls', ty)]
        p = self.params(f)
        if ty in ('integer', 'float', 'decimal', 'date', 'time', 'datetime'):
            for k, a in (('min', 'minimum'), ('max', 'maximum')):
                if f[k]:
                    p[a] = dec(f[k][0])
        if ty in ('text', 'email', 'binary', 'sequence'):
            for k, a in (('minl', 'min_length'), ('maxl', 'max_length')):
                if f[k]:
                    p[a] = f[k][0]
        if ty == 'datetime' and f['utc']:
            p['utc'] = True
        if ty == 'text':
            if not f['strip']:
                p['strip'] = False
            if f['pat']:
                p['pattern'] = f['pats']
        if ty == 'email':
            if f['multiple']:
                p['multiple'] = True
            if f['extended']:
                p['extended'] = True
        if ty == 'token' and f['segs']:
            p['segments'] = f['segs'][0]
        if ty == 'enumeration':
            p['enumeration'] = [dec(x) for x in f['enum']]
            if f['ign']:
                p['ignored_values'] = [dec(x) for x in f['ign'][0]]
        if ty == 'sequence':
            p['item'] = self.build(f['item'])
            if f['unique']:
                p['unique'] = True
        if ty == 'tuple':
            p['values'] = [self.build(x) for x in f['values']]
        if ty == 'union':
            p['fields'] = [self.build(x) for x in f['fields']]
        if ty == 'map':
            p['value'] = self.build(f['value'])
            if f['key']:
                p['key'] = self.build(f['key'][0])
            if f['reqkeys']:
                p['required_keys'] = [dec(x) for x in f['reqkeys'][0]]
        if ty == 'structure':
            if not f['strict']:
                p['strict'] = False
            if f['korder']:
                p['key_order'] = [text(k) for k in f['korder'][0]]
            if f['poly']:
                d = f['poly'][0]
                p['polymorphic_on'] = text(d['name'][0]) if f.get('auto') else self.build(d)
                structure = {}
                for v in f['variants']:
                    structure[dec(v['id'])] = self.members(v['s'])
                if f['common']:
                    structure['*'] = self.members(f['common'])
            else:
                structure = self.members(f['struct'])
            p['structure'] = structure
        if ty == 'surrogate' and f.get('valid'):
            p['valid_surrogates'] = [text(x) for x in f['valid'][0]]
        if ty == 'definition' and f.get('valid'):
            p['valid_fields'] = [text(x) for x in f['valid'][0]]
        return cls(**p)

    def members(self, ms):
        return dict((text(m['k']), self.build(m['f'])) for m in ms)
