"""C28: calls on one schema in several threads and inside one another's callbacks, interleaved as a seeded scheduler says."""
import itertools
import os
import random
import sys
import threading

import scheme
from build import Builder, Extractor, Instantiator
import cases_fields
import cases_formats
import cases_ops
from cases_formats import FGen
from cases_ops import Interp, clean, no_union, subject_of, valid_defaults
from gen import Gen
from nodes import enc
import project
from project import outcome as plain_outcome
from shape import spec_of

LIB = os.path.dirname(os.path.abspath(scheme.__file__)) + os.sep
here = threading.local()


class Baton(object):
    """lets one thread at a time go on"""

    def __init__(self, n, choose):
        self.n, self.choose = n, choose
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.switches = 0

    def offer(self, me):
        nxt = self.choose(me, self.alive)
        if nxt != me:
            self.switches += 1
            self.turn[nxt].release()
            self.turn[me].acquire()

    def done(self, me):
        self.alive.remove(me)
        if self.alive:
            nxt = self.choose(None, self.alive)
            self.turn[nxt].release()


def at_random(r, p):
    def choose(me, alive):
        if me is not None and r.random() >= p:
            return me
        return r.choice(alive)
    return choose


def few(r, n, total):
    """changes threads only at a few points"""
    at = set(r.randrange(1, total) for _ in range(n))
    count = [0]

    def choose(me, alive):
        count[0] += 1
        if me is not None and count[0] not in at:
            return me
        return r.choice([x for x in alive if x != me] or alive)
    return choose


def by_bits(bits):
    """the callbacks' schedule numbered by bits"""
    state = [bits]

    def choose(me, alive):
        state[0], b = divmod(state[0], len(alive))
        return alive[b]
    return choose


class Log(object):
    """the calls of instantiators of the call at hand"""

    def frames(self):
        if not hasattr(here, 'logs'):
            here.logs = [[]]
        return here.logs

    def append(self, tag):
        self.frames()[-1].append(tag)

    def __delitem__(self, k):
        del self.frames()[-1][:]

    def __iter__(self):
        return iter(list(self.frames()[-1]))

    def __len__(self):
        return len(self.frames()[-1])


def yielding():
    s = getattr(here, 'side', None)
    if s is not None:
        s.callback()


class InstH(Instantiator):
    def __call__(self, field, value, key=None):
        yielding()
        return Instantiator.__call__(self, field, value, key)


class ExtrH(Extractor):
    def __call__(self, field, subject):
        yielding()
        return Extractor.__call__(self, field, subject)


class Shared(Builder):
    def __init__(self, env=()):
        self.shared = Log()
        super(Shared, self).__init__(env)
        self.log = self.shared

    def params(self, f):
        self.log = self.shared
        p = super(Shared, self).params(f)
        if 'preprocessor' in p:
            was = p['preprocessor']

            def pre(value):
                yielding()
                return was(value)
            p['preprocessor'] = pre
        if f.get('inst'):
            p['instantiator'] = InstH(f['inst'], self.shared)
        if f.get('extr'):
            p['extractor'] = ExtrH(f['extr'])
        return p


class Side(object):
    """one thread: the calls it makes"""

    def __init__(self, world, me, g, todo):
        self.world, self.me, self.g, self.todo = world, me, g, todo
        self.nested = world.nesting
        self.depth = 0
        self.crash = None

    def run(self):
        w = self.world
        w.baton.turn[self.me].acquire()
        here.side, here.logs = self, [[]]
        try:
            for _ in range(self.todo):
                w.call(self)
        except BaseException as e:
            self.crash = e
        finally:
            here.side = None
            w.baton.done(self.me)

    def callback(self):
        if not here.inside:
            return
        if self.nested > 0 and self.depth < 2 and self.g.chance(0.5):
            self.nested -= 1
            self.depth += 1
            here.logs.append([])
            old, last, deep = sys.gettrace(), here.last, here.inside
            sys.settrace(None)
            try:
                self.world.call(self)
            finally:
                here.logs.pop()
                here.last, here.inside = last, deep
                self.depth -= 1
                sys.settrace(old)
        self.world.baton.offer(self.me)

    def tracer(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(LIB) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.world.baton.offer(self.me)
        return self.line


class World(object):
    def __init__(self, g, f, fld, b, kind, lines, nesting):
        self.g, self.f, self.fld, self.b, self.kind, self.lines, self.nesting = g, f, fld, b, kind, lines, nesting
        self.calls, self.hist, self.held = [], [], []

    def outcome(self, fn, special=None):
        s = getattr(here, 'side', None)
        if s is None:
            return plain_outcome(fn, special)
        n = len(self.held) + 1
        self.held.append(None)
        self.hist.append([n, 1, s.me + 1])
        old, was = sys.gettrace(), getattr(here, 'inside', 0)
        here.inside = n

        def traced():
            if self.lines:
                sys.settrace(s.tracer)
            return fn()
        try:
            out, res = plain_outcome(traced, special)
        finally:
            sys.settrace(old)
            here.inside = was
        self.held[n - 1] = [dict(out), res, special]
        self.hist.append([n, 0, s.me + 1])
        here.last = n
        return out, res

    def rec(self, op, **ev):
        self.calls.append(dict(ev, op=op, call=here.last))

    def call(self, s):
        g, f, fld = s.g, self.f, self.fld
        if not hasattr(here, 'last'):
            here.last, here.inside = 0, 0
        if self.kind != 'plain':
            if self.kind == 'xml':
                xml(self.rec, g, f, fld)
            else:
                cases_formats.trips(self.rec, g, f, fld, self.kind, 1)
            return
        what = g.pick('process', 'process', 'process', 'process', 'instantiate', 'extract', 'interpolate', 'describe', 'defaults')
        if what == 'instantiate' and not self.union:
            got = cases_ops.accepted(g, f, fld, 3)
            if got and got[0] is not None:
                cases_ops.instantiate(self.rec, f, fld, self.b, got[0], g.pick(None, 'key'))
                return
        elif what == 'extract':
            cases_ops.extract(self.rec, f, fld, subject_of(g, f, 0.1), g.pick(True, False))
            return
        elif what == 'interpolate':
            it = Interp(g)
            v = it.value(f)
            if clean(v) and clean(it.params):
                cases_ops.interpolate(self.rec, f, fld, v, it.params)
                return
        elif what == 'describe' and self.describes:
            cases_ops.describe(self.rec, f, fld, g.pick(True, False))
            return
        elif what == 'defaults' and f['ty'] == 'structure' and not f['poly']:
            sparse = g.pick(True, False)
            out, res = self.outcome(lambda: fld.generate_defaults(sparse=sparse))
            fx = cases_ops.Facts(cases_ops.TZ).collect(f)
            self.rec('defaults', f=f, id=[], sparse=int(sparse), out=out, cx=fx.cx(), mut=[])
            return
        ser = g.pick(0, 1)
        ph = g.pick('in', 'in', 'out')
        cases_fields.process(self.rec, f, fld, g.candidate(f, ser and ph == 'in', g.pick(0, 0.1, 0.4)), ph, ser)


def xml(rec, g, f, fld):
    got = cases_ops.accepted(g, f, fld)
    if not got or got[0] is None:
        return
    try:
        s = fld.serialize(got[0])
    except Exception:
        return
    if cases_formats.in_domain('xml', s) and all(isinstance(k, str) and k[:1].isalpha() and all(c.isalpha() or c in '0123456789._-' for c in k)
                                                 for k in cases_formats.keys_in(s)):
        t = cases_formats.write(rec, f, fld, 'xml', got[0])
        if t is not None:
            cases_formats.read(rec, f, fld, 'xml', t, [got[0]] if cases_formats.exactly('xml', f, got[0], s) else None)


PATCHED = (cases_fields, cases_ops, cases_formats)


def c28(key, i, tier, rec):
    g = Gen(key)
    r = g.r
    mode = ('lines', 'lines', 'callbacks', 'nested', 'formats')[i % 5]
    fmt = g.pick('json', 'yaml', 'xml', 'csv', 'structuredtext', 'urlencoded') if mode == 'formats' else 'plain'

    def gen(tag):
        if fmt == 'plain':
            x = Gen(tag, pre=0.25 if mode == 'lines' else 0.6, inst=0.4, nan=False, unmatched=0, poly=0.25)
            no_union(x)
            if union:
                x.p['structural'] = Gen(tag).p['structural']
                x.p['inst'] = 0
            return x
        return FGen(tag, fmt, default=0.15)
    union = g.chance(0.3)
    x = gen(key + '-schema')
    if fmt == 'csv':
        x.p['structural'] = ['structure']
        f = x.base('sequence', minl=[], maxl=[], unique=0, item=x.spec(1, types=['structure']))
        f['pre'] = 'none'
        if not cases_formats.suits('csv', f, None):
            fmt = 'json'
    if fmt in ('json', 'yaml', 'structuredtext', 'xml'):
        f = x.spec(g.pick(1, 2))
    elif fmt == 'urlencoded':
        f = x.spec(g.pick(1, 2), types=['structure', 'map'])
    elif fmt == 'plain':
        f = x.spec(g.pick(1, 2, 2), types=g.pick(['structure'], ['structure', 'sequence', 'map', 'tuple'] + ['union'] * union))
        valid_defaults(x, f)
    pres(g, f, 0.75 if mode in ('callbacks', 'nested') else 0.2 if mode == 'lines' else 0)
    try:
        b = Shared()
        fld = b.build(f)
    except Exception as e:
        rec('build', x=type(e).__name__, f=f)
        return
    w = World(g, f, fld, b, fmt, mode in ('lines', 'formats'), g.pick(0, 0, 2) if mode != 'nested' else g.pick(3, 6))
    w.describes, w.union = True, cases_ops.has(f, lambda h: h['ty'] == 'union')
    n = 1 if mode == 'nested' and g.chance(0.5) else g.pick(2, 2, 3, 4)
    if mode == 'callbacks' and g.chance(0.5):
        choose = by_bits(r.randrange(4 ** 12))
    elif g.chance(0.4):
        choose = few(r, g.pick(1, 2, 3, 5), g.pick(*((40, 150, 400, 1000) if w.lines else (4, 8, 16))))
    else:
        choose = at_random(r, g.pick(*((0.02, 0.1, 0.3) if w.lines else (0.4, 0.7, 1))))
    w.baton = Baton(n, choose)
    sides = [Side(w, k, gen('%s-%d' % (key, k)), g.pick(1, 2, 3) if fmt == 'plain' else 1) for k in range(n)]
    before = spec_of(fld)
    out = sys.stdout
    for m in PATCHED:
        m.outcome = w.outcome
    try:
        threads = [threading.Thread(target=s.run) for s in sides]
        for t in threads:
            t.daemon = True
            t.start()
        w.baton.turn[choose(None, list(range(n)))].release()
        for t in threads:
            t.join()
    finally:
        for m in PATCHED:
            m.outcome = plain_outcome
        sys.stdout = out
    for s in sides:
        if s.crash is not None:
            raise s.crash
    held = []
    for k, (early, res, special) in enumerate(w.held):
        def again(res=res):
            if isinstance(res, BaseException):
                raise res
            return res
        if early['r'] != 'undef':
            late = plain_outcome(again, special)[0]
            held.append(dict(call=k + 1, early=tuple_free(early), late=tuple_free(late)))
    rec('concurrent', f=f, calls=w.calls, hist=w.hist, n=len(w.held), held=held, before=before, after=spec_of(fld), mode=mode, switches=w.baton.switches)


def tuple_free(out):
    return dict(r=out['r'], x=out['x'], v=out['v'], e=out['e'], s=out['s'], rep=out['rep'])


def pres(g, f, p):
    """preprocessors which do nothing but call back, in some places"""
    if isinstance(f, dict):
        if 'ty' in f and f['ty'] != 'email':
            f['pre'] = 'ident' if g.chance(p) else 'none'
        for k, v in f.items():
            if k not in ('default', 'constant', 'enum', 'prev', 'ign'):
                pres(g, v, p)
    elif isinstance(f, list):
        for v in f:
            pres(g, v, p)


CASES = {'C28': c28}
