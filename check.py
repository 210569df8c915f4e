#!/usr/bin/env python3
"""check.py Cnn          decides property Cnn (VERIF_TIER, VERIF_SEED)
check.py replay FILE  runs a recorded violation again"""
import base64, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import run as R
from vlib.run import Work, ToolError

HERE = os.path.dirname(os.path.abspath(__file__))
FINDINGS = os.path.join(HERE, 'known-findings.txt')


def enc(x):
    if isinstance(x, bytes):
        return {'$b': base64.b64encode(x).decode()}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if set(x) == {'$b'}:
            return base64.b64decode(x['$b'])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def show_obs(o):
    r = {k: bytes.fromhex(o[k]).decode('utf-8', 'backslashreplace') for k in ('out', 'path', 'msg', 'body') if o.get(k)}
    for k in ('ok', 'line', 'died', 'odd', 'same', 'why'):
        if o.get(k) not in (None, 0, False) or k == 'ok':
            r[k] = o.get(k)
    if o.get('par'):
        r['par'] = [[show_obs(x) for x in xs] for xs in o['par']]
    if o.get('toks'):
        r['toks'] = [(t['t'], bytes.fromhex(t['lit']).decode('utf-8', 'backslashreplace'), t['p']) for t in o['toks']]
    return r


def show_step(s):
    r = {}
    for k, v in s.items():
        if isinstance(v, bytes):
            v = v.decode('utf-8', 'backslashreplace')
        elif k == 'opt':
            v = {a: b.decode('utf-8', 'backslashreplace') if isinstance(b, bytes) else b for a, b in v.items()}
        elif k == 'calls':
            v = [show_step(x) for x in v]
        elif k == 'data':
            v = [(n.decode('utf-8', 'backslashreplace'), show_datum(x)) for n, x in v]
        elif k == 'val':
            v = show_datum(v) if v else None
        r[k] = v
    return r


def show_datum(d):
    k = d['k']
    if k in ('bool', 'int', 'float'):
        return '%s(%r)' % (d.get('gk') or d.get('name') or k, d['v'])
    if k == 'str':
        return d['v'].decode('utf-8', 'backslashreplace')
    if k == 'ptr':
        return ['&', show_datum(d['x'])]
    if k == 'slice':
        return [show_datum(x) for x in d['x']]
    if k == 'map':
        return {n.decode('utf-8', 'backslashreplace'): show_datum(x) for n, x in d['x']}
    if k == 'struct':
        return {'struct ' + n: show_datum(x) for n, e, x in d['x']}
    return k + ':' + d.get('name', '')


def describe(v):
    """text about a rejected step"""
    c, k = v.case, v.step
    lines = ['verdict: ' + v.kind, 'call %d of %d: %s' % (k + 1, len(c['steps']), json.dumps(show_step(c['steps'][k]), ensure_ascii=False))]
    lines.append('observed: ' + json.dumps(show_obs(c['obs'][k]), ensure_ascii=False))
    if v.kind == 'VARIES':
        for m in c.get('more', []):
            if m[k] != c['obs'][k]:
                lines.append('observed in another process: ' + json.dumps(show_obs(m[k]), ensure_ascii=False))
                break
    lines.append('expected by the specification: ' + v.expected)
    import re
    for x in re.findall(r'<<(\d+(?:, \d+)*)>>', v.expected)[:4]:
        try:
            lines.append('  that is: ' + repr(bytes(map(int, x.split(', ')))))
        except ValueError:
            pass
    if k:
        lines.append('earlier calls: ' + json.dumps([show_step(s) for s in c['steps'][:k]], ensure_ascii=False)[:6000])
    for f in c['fs']:
        lines.append('file %s (%s): %r' % (f['p'].decode('utf-8', 'replace'), f['kind'], f['c'][:2000]))
    return '\n'.join(lines)


def trim(c, k):
    """the case up to step k; for stateless cases only that step"""
    c = dict(c, steps=c['steps'][:k + 1])
    if not c['iso']:
        c['steps'] = c['steps'][k:]
    for x in ('obs', 'more'):
        c.pop(x, None)
    return c


def confirm(work, v, opts):
    """runs a rejected case again by itself; the verdict of that run or None"""
    shared = not v.case['iso']
    for attempt in ('trim', 'whole'):
        c = trim(v.case, v.step) if attempt == 'trim' else {k: x for k, x in v.case.items() if k not in ('obs', 'more')}
        if attempt == 'whole' and not shared:
            break
        c['iso'] = True
        R.run_cases(work, [c], race=opts.get('race', False), repeat=opts.get('repeat', 0))
        rej, _ = R.judge(work, [c])
        if rej:
            return rej[0]
    if v.kind in ('VARIES', 'DIFFERS') or any(s['op'] == 'par' for s in v.case['steps']):
        # what was observed cannot happen according to the specification, even if it does not happen every time
        return v
    if 'panic' in v.case['obs'][v.step].get('why', '') or 'DATA RACE' in v.case['obs'][v.step].get('why', ''):
        return v
    return None


def record(pid, n, v, seed, opts):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (pid, n))
    c = {k: x for k, x in v.case.items() if k not in ('obs', 'more', 'root')}
    with open(p, 'w') as h:
        json.dump({'property': pid, 'seed': seed, 'opts': opts, 'case': enc(c), 'text': describe(v)}, h, indent=1)
    return os.path.relpath(p, HERE)


def findings(pid):
    """the known findings of a property: [what, case]"""
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            if ln.startswith('known: property=' + pid + ' '):
                head, js = ln.split(' case=', 1)
                out.append((head[len('known: property=' + pid + ' '):], json.loads(js)))
    return out


def probe(work, pid, todo):
    """runs the inputs of known findings.  A finding is {src, data, demanded,
    actual}: what the property demands and what the code does instead."""
    known, new = [], []
    from vlib import data as D
    for what, f in todo:
        data = [(k.encode(), D.s_(v)) for k, v in f.get('data', {}).items()]
        steps = [dict(op='register', ty=x['ty'], name=x['name'].encode(), tag=x['name'].encode(), beh='show', val=None) for x in f.get('register', [])]
        c = R.case(steps + [R.evalstr(f['src'].encode(), data)], iso=True)
        R.run_cases(work, [c])
        o = c['obs'][-1]
        out = bytes.fromhex(o['out']).decode('utf-8', 'replace') if o['ok'] else None
        if out == f['demanded']:
            continue
        if out == f['actual']:
            known.append(what)
        else:
            new.append(R.Verdict(c, len(c['steps']) - 1, 'REJECT', 'demanded %r, known to give %r' % (f['demanded'], f['actual'])))
    return known, new


def main(pid):
    from vlib.props import PROPS
    t0 = time.time()
    seed, tier = R.env_seed(), os.environ.get('VERIF_TIER', 'quick')
    work = Work()
    try:
        groups = PROPS[pid](tier, seed)
        if isinstance(groups, list):
            groups = [({}, groups)]
        kinds, confirmed, unconfirmed, total, steps = {}, [], [], 0, 0
        samples, distinct = [], set()
        design = []
        from vlib.models import designs
        from vlib.sizes import sizes
        from vlib.alike import alike

        def everything():
            yield from groups
            if more := sizes(pid, tier, seed) + alike(pid, tier, seed):
                yield {}, more
            for cs, info, opts in designs(work, pid, tier, seed):
                design.append(info)
                yield opts, cs
        for opts, cs in everything():
            R.run_cases(work, cs, race=opts.get('race', False), repeat=opts.get('repeat', 0))
            rej, ks = R.judge(work, cs)
            for k, n in ks.items():
                kinds[k] = kinds.get(k, 0) + n
            total += len(cs)
            for c in cs:
                steps += len(c['steps'])
                for s in c['steps']:
                    distinct.add(json.dumps([R.step_tla(s), [f['c'].hex() for f in c['fs']]], sort_keys=True))
            for c in cs[::max(1, len(cs) // 3)][:3]:
                samples.append({'case': [show_step(s) for s in c['steps'][:4]], 'files': [(f['p'].decode('utf-8', 'replace'), f['c'][:300].decode('utf-8', 'backslashreplace')) for f in c['fs'][:6]],
                                'observed': [show_obs(o) for o in c['obs'][:4]]})
            for v in rej[:40]:
                if len(confirmed) >= 3 or confirmed and time.time() - t0 > 600:
                    break
                work.dead, work.t0 = 0, time.time()
                w = confirm(work, v, opts)
                if w is None:
                    unconfirmed.append(v)
                else:
                    confirmed.append((w, opts))
            if confirmed:
                break
        work.dead, work.t0 = 0, time.time()
        known, new = probe(work, pid, findings(pid))
        confirmed += [(v, {}) for v in new]
        nontrivial = kinds.get('ok', 0) + kinds.get('e', 0)
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': work.stats['states'], 'transitions': work.stats['transitions'],
                'traces_validated_against_impl': total,
                'evaluations': steps, 'distinct_nontrivial': min(len(distinct), nontrivial),
                'rule': 'an evaluation is one API call made on the real code and judged by TLC; it is non-trivial when the specification determines its result (ok or error); distinct by call and files',
                'expected': kinds, 'cases_not_run': work.stats['not_run'], 'samples': samples[:5], 'design_models': design,
            },
            'assumptions': ['module Float64 (java.math, JVM doubles) and the case tables of module Values are trusted',
                            'inputs are bounded and sampled as described in DESIGN.md; the seed selects the sample'],
            'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, ensure_ascii=False, default=str)
        print('%s %s seed %d: %d cases, %d calls (%s), %.0f s' % (pid, tier, seed, total, steps, kinds, time.time() - t0))
        for w in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
        for n, (v, opts) in enumerate(confirmed):
            print(describe(v)[:4000])
            print('VIOLATION property=%s replay=%s' % (pid, record(pid, n, v, seed, opts)))
        if confirmed:
            return 1
        if unconfirmed:
            for v in unconfirmed[:3]:
                print('NOT REPRODUCED: ' + describe(v)[:3000])
            return 2
        return 0
    finally:
        work.close()


def setup():
    """builds what the checks build, to show that it can be built"""
    work = Work()
    try:
        work.driver()
        work.driver(race=True)
        work.spec()
        print('built')
        return 0
    finally:
        work.close()


def replay(path):
    with open(path) as h:
        r = json.load(h)
    work = Work()
    try:
        c = dec(r['case'])
        c['root'] = b''
        for s in c['steps']:
            s['data'] = [tuple(x) for x in s['data']] if 'data' in s else s.get('data')
            if s['data'] is None:
                del s['data']
        R.run_cases(work, [c], race=r['opts'].get('race', False), repeat=r['opts'].get('repeat', 0))
        rej, _ = R.judge(work, [c])
        for v in rej:
            print(describe(v))
            print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1 if rej else 0
    finally:
        work.close()


if __name__ == '__main__':
    try:
        sys.exit(setup() if sys.argv[1] == 'setup' else replay(sys.argv[2]) if sys.argv[1] == 'replay' else main(sys.argv[1]))
    except ToolError as e:
        print('TOOL FAILURE:', e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
