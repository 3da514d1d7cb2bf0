"""C38: documentation generated from the descriptions of fields."""
from datetime import date, datetime, time

from build import Builder
from gen import Gen
from nodes import codes, enc

from scheme import Field
from scheme.doc.generator import DocumentationGenerator

NAMES = ['field', 'a', 'name', 'two words', 'é', '1', '', 'kind']
TEXTS = ['A text.', 'two\nlines', 'é', ': colon', 'a\n\nb', ' indented', ':type: text', '.. field:: x', 'trailing\n', '0', 'a \n  b']


def parts(d, out):
    """every description inside d"""
    if isinstance(d, dict):
        if isinstance(d.get('fieldtype'), str):
            out.append(d)
        for k, v in d.items():
            if k not in ('default', 'constant', 'polymorphic_on', 'key'):
                parts(v, out)
    elif isinstance(d, (list, tuple)):
        for v in d:
            parts(v, out)
    return out


def suitable(d):
    """what descriptions are said to hold: identities and names are strings"""
    if d['fieldtype'] == 'structure' and isinstance(d.get('structure'), dict):
        if 'fieldtype' in d['structure'] or not all(isinstance(k, str) for k in d['structure']):
            return False
        if d.get('polymorphic_on') and not isinstance(d['polymorphic_on'].get('name'), str):
            return False
    return not (d['fieldtype'] == 'map' and d.get('required_keys') and not all(isinstance(k, str) for k in d['required_keys']))


def bound(ty, text):
    """the bound a description gives as text"""
    return {'date': date, 'time': time, 'datetime': datetime}[ty].fromisoformat(text.rstrip('Z'))


def table(d):
    out = []
    for x in parts(d, []):
        for k, v in x.items():
            if k in ('minimum', 'maximum', 'min_length', 'max_length', 'constant', 'default', 'title', 'description', 'notes', 'pattern'):
                out.append([enc(v), codes(repr(v)), codes(str(v))])
        for v in x.get('enumeration') or ():
            out.append([enc(v), codes(repr(v)), codes(str(v))])
    return out


def c38(key, i, tier, rec):
    g = Gen(key, inst=0, pre=0, nan=False, default=0.2, constant=0.08, nonnull=0.3, texts=0.3)
    f = g.spec(g.pick(0, 1, 1, 2, 2, 3))
    f['required'] = int(f['required'] or g.chance(0.4))
    try:
        fld = Builder().build(f)
    except Exception as e:
        rec('build', x=type(e).__name__, f=f)
        return
    try:
        d = fld.describe(verbose=g.chance(0.3))
    except Exception:       # some schemas have no description (see C18)
        return
    doc = DocumentationGenerator()
    for _ in range(2):
        for x in parts(d, []):
            if g.chance(0.2):
                x[g.pick('description', 'notes', 'title')] = g.r.choice(TEXTS)
            for k in ('minimum', 'maximum'):
                if x['fieldtype'] in ('date', 'time', 'datetime') and isinstance(x.get(k), str) and g.chance(0.7):
                    x[k] = bound(x['fieldtype'], x[k])
        if not all(suitable(x) for x in parts(d, [])):
            return
        name, role = g.r.choice(NAMES), g.pick(None, None, 'schema', 'request', 'response')
        lvl, sect, k = g.pick(0, 0, 1, 3), g.chance(0.2), g.pick(None, None, None, 'text', 'integer')
        before, reps = enc(d), table(d)
        r, out = 'ok', []
        try:
            out = codes(doc._document_field(name, d, role, sect, k).render(lvl))
        except Exception as e:
            r = type(e).__name__
        rec('document', v=before, name=codes(name), role=codes(role or ''), sect=int(sect), key=codes(k or ''), lvl=lvl, reps=reps, r=r, out=out,
            mut=[] if enc(d) == before else ['description'])


CASES = {'C38': c38}
