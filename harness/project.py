"""What the model can see of an outcome of the real code."""
import re

from scheme.exceptions import (CannotDescribeError, CannotExtractError, CannotFilterError, CannotInterpolateError,
                               FieldExcludedError, InvalidTypeError, StructuralError, UndefinedFieldError,
                               UndefinedParameterError, ValidationError)
from nodes import enc, codes, NULL

NOERR = dict(k='none', toks=[], path=[], sk='none', sub=[], d=[])
SPECIAL = [None]           # how the values of the case at hand are recorded
DETAIL = [False]           # record what each failure says of itself
KINDS = [(CannotDescribeError, 'describe'), (CannotExtractError, 'extract'), (CannotFilterError, 'filter'),
         (CannotInterpolateError, 'interp'), (FieldExcludedError, 'excluded'), (UndefinedParameterError, 'param')]
NUMBERED = re.compile(r'^\[(\d+)\] (.*)$')
HOLE = re.compile(r'%(?:\((\w+)\)[sdfr]|%)')
AT = re.compile(r'^.*? error at (.*)$', re.S)


def template(message):
    """text and the names of what is filled in"""
    out, end = [], 0
    for m in HOLE.finditer(message):
        if m.start() > end:
            out.append(dict(h=0, x=codes(message[end:m.start()])))
        out.append(dict(h=0, x=codes('%')) if m.group() == '%%' else dict(h=1, x=codes(m.group(1))))
        end = m.end()
    if message[end:]:
        out.append(dict(h=0, x=codes(message[end:])))
    return out


def detail(e):
    f = e.field
    if f is None:
        return [dict(kd='none', name=[], val=enc(e.value, SPECIAL[0]), enum=[], msgs=[], frepr=[], vrepr=[])]
    msgs = []
    if e.structure is None:
        for x in e.errors:
            if isinstance(x, dict) and x.get('token') in f.errors:
                fe = f.errors[x['token']]
                msgs.append(dict(tok=x['token'], tmpl=template(fe.message), msg=codes(x['message']),
                                 title=codes(fe.title.capitalize()), sf=int(bool(fe.show_field)), sv=int(bool(fe.show_value)),
                                 head=codes('\n'.join(e.format_errors()))))
    return [dict(kd=f.type, name=[] if f.name is None else [codes(f.name)], val=enc(e.value, SPECIAL[0]), msgs=msgs,
                 enum=[enc(x) for x in f.enumeration] if f.type == 'enumeration' else [],
                 frepr=codes(repr(f)) if msgs else [], vrepr=codes(repr(e.value)) if msgs else [])]


def err_tree(e):
    k = 'type' if isinstance(e, InvalidTypeError) else 'val' if isinstance(e, ValidationError) else 'struct'
    node = dict(k=k, toks=[x['token'] if isinstance(x, dict) else 'text' for x in e.errors],
                path=codes(''.join(e.identity)), sk='none', sub=[], d=detail(e) if DETAIL[0] else [])
    st = e.structure
    if isinstance(st, dict):
        node['sk'] = 'dict'
        node['sub'] = [dict(key=enc(key), err=[err_tree(x)]) for key, x in st.items()
                       if isinstance(x, StructuralError)]
    elif isinstance(st, (list, tuple)):
        node['sk'] = 'list'
        node['sub'] = [dict(key=NULL, err=[err_tree(x)] if isinstance(x, StructuralError) else []) for x in st]
    elif st is not None:
        node['sk'] = 'odd'
    return node


def ser_sub(x):
    if isinstance(x, dict):
        return dict(toks=[], sk='dict', sub=[dict(key=enc(k), err=[ser_sub(v)]) for k, v in x.items()])
    if isinstance(x, list) and x and all(isinstance(y, dict) and isinstance(y.get('token'), str) for y in x):
        return dict(toks=[y['token'] for y in x], sk='none', sub=[])
    if isinstance(x, list):
        return dict(toks=[], sk='list', sub=[dict(key=NULL, err=[] if y is None else [ser_sub(y)]) for y in x])
    return dict(toks=['odd'], sk='odd', sub=[])


def ser_tree(s):
    """the serialized form of an error: (errors, structure)"""
    errors, structure = s
    if structure is not None:
        t = ser_sub(structure)
        if errors:
            t['toks'] = ['both']
        return t
    return dict(toks=[y['token'] for y in (errors or [])], sk='none', sub=[])


def report(text):
    """[number, path text] of each entry of a printed report"""
    lines = text.split('\n')
    out = []
    if lines[0] != 'validation failed':
        return [[0, codes(lines[0])]]
    cur = None
    for line in lines[1:]:
        m = NUMBERED.match(line)
        if m and not line.startswith('     '):
            if cur:
                out.append(cur)
            cur = [int(m.group(1)), m.group(2)]
        elif cur:
            cur[1] += '\n' + line[5:]
    if cur:
        out.append(cur)
    res = []
    for n, body in out:
        m = AT.match(body)
        res.append([n, codes(m.group(1)) if m else []])
    return res


def exc_name(e):
    return type(e).__name__


def outcome(fn, special=None):
    """calls fn; [r, v, e, s, rep, x]: kind of outcome, value, error tree, serialized error, report, exception"""
    out = dict(r='ok', v=NULL, e=NOERR, s=dict(toks=[], sk='none', sub=[]), rep=[], x='')
    try:
        v = fn()
    except UndefinedFieldError as e:
        out['r'] = 'undef'
        return out, None
    except StructuralError as e:
        out['r'] = 'err'
        out['e'] = err_tree(e)
        try:
            out['s'] = ser_tree(e.serialize())
        except Exception as x:
            out['r'], out['x'] = 'exc', 'serialize: ' + exc_name(x)
        try:
            out['rep'] = report(str(e))
        except Exception as x:
            out['r'], out['x'] = 'exc', 'str: ' + exc_name(x)
        return out, e
    except RecursionError as e:
        out['r'], out['x'] = 'exc', 'RecursionError'
        return out, e
    except Exception as e:
        out['r'], out['x'] = 'exc', exc_name(e)
        for cls, kind in KINDS:
            if isinstance(e, cls):
                out['r'] = kind
        return out, e
    out['v'] = enc(v, special)
    return out, v
