#!/usr/bin/env python3
"""Decides one property.

  run.py ID [--thorough] (or VERIF_TIER=quick|thorough; VERIF_SEED=n)
  run.py --replay FILE   re-runs the recorded case and checks it against the model again
"""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from plans import PLANS

PY = '/opt/venv-pypy/bin/python'
JAVA = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-Xmx2g', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']
SHARDS = 8
BAD = re.compile(r'^"BAD (\d+) (.*)"$')
STATES = re.compile(r'^(\d+) states generated, (\d+) distinct states found')


class Machinery(Exception):
    pass


def environ(tz='UTC', **extra):
    env = dict(PATH=os.environ.get('PATH', '/usr/bin:/bin'), HOME='/root', LANG='C.UTF-8', TZ=tz,
               PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0')
    env.update(extra)
    return env


def drive(prop, seed, lo, hi, tier, out, tz):
    """records the cases; one which ends the interpreter itself is tried again on its own"""
    again = 0
    while lo < hi:
        code, err = driven(prop, seed, lo, hi, tier, out, tz)
        if code == 0:
            return
        at = open(out + '.at').read() if os.path.exists(out + '.at') else ''
        if not at or again == 3:
            raise Machinery('driver failed: %s' % err)
        at, again = int(at), again + 1
        with open(out, 'rb+') as f:         # keep whole lines only
            data = f.read()
            f.truncate(data.rfind(b'\n') + 1)
        code, err = driven(prop, seed, at, at + 1, tier, out, tz)
        if code != 0:
            with open(out, 'rb+') as f:
                data = f.read()
                f.truncate(data.rfind(b'\n') + 1)
                f.seek(0, 2)
                f.write(json.dumps(dict(op='crash', where='process', x='InterpreterDied', trace=err, i=at)).encode() + b'\n')
        lo = at + 1


def driven(prop, seed, lo, hi, tier, out, tz):
    env = environ(tz, VERIF_TZ=tz)
    r = subprocess.run([PY, '-W', 'ignore', os.path.join(ROOT, 'harness', 'driver.py'), prop, str(seed),
                        str(lo), str(hi), tier, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       cwd=os.path.dirname(out))
    return r.returncode, r.stderr.decode('utf-8', 'replace')[-3000:]


def tlc(module, config, work, env=None, workers='1', extra=()):
    """runs TLC; (output lines, states generated, distinct states)"""
    meta = tempfile.mkdtemp(dir=work)
    r = subprocess.run(JAVA + ['-workers', workers, '-nowarning', '-noGenerateSpecTE', '-metadir', meta, '-config', config] + list(extra)
                       + [module], cwd=os.path.join(ROOT, 'spec'), env=environ(**(env or {})),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(meta, ignore_errors=True)
    lines = r.stdout.decode('utf-8', 'replace').split('\n')
    gen = dist = 0
    for line in lines:
        m = STATES.match(line)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
    return r.returncode, lines, gen, dist


def check_trace(path, work, workers='1'):
    """(number of events, [(line, clauses)], states generated)"""
    events = sum(1 for _ in open(path))
    if not events:
        return 0, [], 0
    bad, total, done = [], 0, 0
    for turn in range(4):
        code, lines, gen, dist = tlc('Trace.tla', 'Trace.cfg', work, dict(TRACE=path), workers)
        total += gen
        for line in lines:
            m = BAD.match(line)
            if m:
                bad.append((done + int(m.group(1)), json.loads(m.group(2).replace('\\"', '"').replace('\\\\', '\\'))))
        if code == 0 and any('No error has been found' in x for x in lines):
            break
        at = [int(x[7:]) for x in lines if re.match(r'^/\\ l = \d+$', x)]
        text = '\n'.join(lines)
        if not at or 'OutOfMemory' in text or 'StackOverflow' in text or 'attempted to evaluate' not in text.lower() \
                and 'Attempted to' not in text:
            raise Machinery('TLC on %s: exit %d\n%s' % (path, code, text[-4000:]))
        # what was recorded is not of a form the specification gives a meaning to
        bad.append((done + at[-1], ['outside the specification: ' + ' '.join(
            x for x in lines if 'ttempted' in x)[:300]]))
        tail = path + '.tail'
        rest = open(path).readlines()[at[-1]:]
        if not rest:
            break
        with open(tail, 'w') as f:
            f.writelines(rest)
        done, path = done + at[-1], tail
    return events, bad, total


def shard(prop, seed, lo, hi, tier, work, k, tz):
    out = os.path.join(work, 'trace%d.ndjson' % k)
    drive(prop, seed, lo, hi, tier, out, tz)
    n, bad, gen = check_trace(out, work)
    return dict(out=out, n=n, bad=bad, gen=gen, tz=tz)


def model(mc, work, tier, prop, seed):
    """an exhaustive check of a bounded instance of the specification"""
    name, config = mc['module'], mc.get(tier, mc.get('quick'))
    if config is None:
        return None
    env = dict((k, v.replace('{work}', work)) for k, v in mc.get('env', {}).items())
    code, lines, gen, dist = tlc(name + '.tla', config, work, env, mc.get('workers', '4'), mc.get('extra', ()))
    if code != 0:
        raise Machinery('TLC on %s with %s: exit %d\n%s' % (name, config, code, '\n'.join(lines)[-4000:]))
    return dict(module=name, config=config, generated=gen, distinct=dist)


def brief(ev):
    text = json.dumps(ev)
    return text if len(text) < 3000 else text[:3000] + '...'


def kf_entries():
    p = os.path.join(ROOT, 'known-findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def run(prop, tier, seed):
    t0 = time.time()
    plan = PLANS[prop]
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        total = plan[tier]
        zones = plan.get('tz', ['UTC'])
        per = (total + SHARDS - 1) // SHARDS
        jobs, models = [], []
        with ThreadPoolExecutor(SHARDS) as pool:
            mfut = [pool.submit(model, mc, work, tier, prop, seed) for mc in plan.get('mc', [])]
            step = min(per, plan.get('chunk', 1200))
            lo, k = 0, 0
            while lo < total:
                hi = min(total, lo + step)
                jobs.append(pool.submit(shard, prop, seed, lo, hi, tier, work, k, zones[k % len(zones)]))
                lo, k = hi, k + 1
            results = [j.result() for j in jobs]
            models = [m.result() for m in mfut]
        models = [m for m in models if m]
        listed = [e for e in kf_entries() if e['property'] == prop]
        violations, known, kinds, samples, distinct = [], {}, {}, [], set()
        events = 0
        for r in results:
            badlines = dict(r['bad'])
            with open(r['out']) as f:
                for n, line in enumerate(f, 1):
                    events += 1
                    distinct.add(hashlib.md5(line.split('"i":')[0].encode()).digest()[:8])
                    if n in badlines or len(samples) < 3 and events % 97 == 5:
                        ev = json.loads(line)
                        if n not in badlines:
                            samples.append(brief(ev))
                            continue
                        hit = [e for e in listed if ev.get('kf') == e['id']]
                        if hit:
                            known[hit[0]['id']] = hit[0]
                        else:
                            violations.append((ev, badlines[n], r['tz']))
                    if '"op": "' in line:
                        op = line.split('"op": "')[1].split('"')[0]
                        kinds[op] = kinds.get(op, 0) + 1
        if events == 0:
            raise Machinery('no events recorded')
        for e in known.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
        rdir = os.path.join(ROOT, 'replays')
        shown = {}
        for ev, clauses, tz in violations:
            key = (ev['op'], tuple(clauses))
            shown[key] = shown.get(key, 0) + 1
            if shown[key] > 2 or len(shown) > 12:
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s-%s.json' % (prop, ev['i'], hashlib.md5(
                json.dumps([ev, clauses], sort_keys=True).encode()).hexdigest()[:8]))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, case=ev['i'], tz=tz, clauses=clauses, event=ev), f)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s %s: %s' % (ev['op'], ev.get('x', ''), ', '.join(clauses)))
            if ev['op'] == 'crash':
                print('  ' + ev['trace'].replace('\n', '\n  ')[-1500:])
        cov = dict(states=sum(r['gen'] for r in results) + sum(m['distinct'] for m in models),
                   transitions=sum(max(0, r['gen'] - 1) for r in results) + sum(m['generated'] for m in models),
                   traces_validated_against_impl=events, cases=total, distinct_events=len(distinct), events_by_kind=kinds,
                   bounded_models=models, timezones=zones, samples=samples or ['(none sampled)'],
                   known_findings=sorted(known))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
                           assumptions=plan.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                           violations=len(violations)), f, indent=1)
        print('%s %s: %d cases, %d events, %d models, %d violations, %.1fs' % (
            prop, tier, total, events, len(models), len(violations), time.time() - t0))
        return 1 if violations else 0
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        out = os.path.join(work, 'trace.ndjson')
        drive(rec['property'], rec['seed'], rec['case'], rec['case'] + 1, rec['tier'], out, rec['tz'])
        n, bad, gen = check_trace(out, work)
        lines = open(out).read().split('\n')
        for k, clauses in bad:
            print('BAD', json.loads(lines[k - 1])['op'], clauses)
            print(lines[k - 1][:6000])
        print('%d events, %d violations' % (n, len(bad)))
        if bad:
            print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(run(sys.argv[1], tier if tier in ('quick', 'thorough') else 'quick',
                     int(os.environ.get('VERIF_SEED', '1') or 1)))
    except Machinery as e:
        print('MACHINERY: %s' % e)
        sys.exit(2)
