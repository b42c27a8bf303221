"""Executes scenarios: containment of hangs and crashes, and the worker loop."""
import os
import sys
import json
import time
import copy
import zlib

import forkrun

NWORK = 8


def checked(fn, scn, *args):
    """Runs in the fork: a shrunk scenario that stopped making sense proves nothing."""
    r = fn(scn, *args)
    w = sys.modules.get('world')
    if w and w.Invalid.seen and scn.get('shrunk'):
        return {'invalid': 'not well formed'}
    return r


def guarded(fn, scn, *args):
    """fn(scn) in a fork; a hang or a crash of the library becomes a violation."""
    for attempt in range(3):
        r = forkrun.call(checked, fn, scn, *args)
        if 'r' in r:
            return r['r']
        if 'crash' in r:
            if not r['crash'].startswith('the process'):
                if scn.get('shrunk'):
                    return {'invalid': r['crash']}
                # the library gave the harness something nobody could work with
                return {'viol': [bug('malformed', r['crash'])]}
            if attempt == 0:
                continue
            return {'viol': [bug('crash', r['crash'])]}
        if attempt == 0:
            # endless loops outside of scheduling points: count every line
            scn = copy.deepcopy(scn)
            scn.setdefault('sched', {})['gran'] = 'line'
            scn['slow'] = 1
            continue
        return {'viol': [bug('hang', 'the run did not end')]}
    return {'viol': [bug('hang', 'the run did not end')]}


def bug(aspect, msg, **kw):
    d = {'aspect': aspect, 'msg': msg, 'g': None, 'op': None, 'k': None}
    d.update(kw)
    return d


def evaluate(eng, pid, scn):
    """(violations of pid, result)"""
    import props
    res = eng.execute(scn)
    return [v for v in res.get('viol', ()) if props.relevant(pid, v)], res


def hashseed(seed, worker):
    return 1 + (seed * 7919 + worker * 104729) % 4294967295


def scenario_seed(seed, i):
    return seed * 1000003 + i


class Agg:
    """Counts of what the runs did."""

    def __init__(self):
        self.c = {'runs': 0, 'steps': 0, 'switches': 0, 'threaded_runs': 0, 'invalid': 0, 'errors': 0}
        self.maps = {'ops': {}, 'faults': {}, 'gran': {}, 'policy': {}, 'other_aspects': {}, 'extra': {}}
        self.shapes = set()
        self.sigs = set()
        self.nontrivial = set()

    def add(self, res):
        self.c['runs'] += 1
        if res.get('invalid'):
            self.c['invalid'] += 1
        st = res.get('stats')
        if not st:
            return
        self.c['steps'] += st.get('steps', 0)
        self.c['switches'] += st.get('switches', 0)
        if st.get('threads', 1) > 1:
            self.c['threaded_runs'] += 1
            self.sigs.add(st.get('sig', 0))
        for m in ('ops', 'faults', 'extra'):
            for k, v in st.get(m, {}).items():
                self.maps[m][k] = self.maps[m].get(k, 0) + v
        for m in ('gran', 'policy'):
            if m in st:
                self.maps[m][st[m]] = self.maps[m].get(st[m], 0) + 1
        self.shapes.add(st.get('shape', 0))
        if st.get('switches') or st.get('faults') or st.get('nontrivial'):
            self.nontrivial.add(st.get('shape', 0))

    def dump(self):
        return {'c': self.c, 'maps': self.maps, 'shapes': sorted(self.shapes), 'sigs': sorted(self.sigs),
                'nontrivial': sorted(self.nontrivial)}


def worker(pid, seed, w, n, deadline):
    """Runs w, w+NWORK, ... below n; stops at the first violation."""
    import props
    eng = props.engine(pid)
    agg = Agg()
    out = {'worker': w, 'fail': None, 'err': None, 'sample': None, 'truncated': False}
    t0 = time.monotonic()
    for i in range(w, n, NWORK):
        if time.monotonic() - t0 > deadline:
            out['truncated'] = True
            break
        s = scenario_seed(seed, i)
        scn = eng.generate(s)
        viol, res = evaluate(eng, pid, scn)
        if res.get('err') or (res.get('invalid') and not viol):
            agg.c['errors'] += 1
            if out['err'] is None:
                out['err'] = {'run': i, 'text': res.get('err') or 'invalid: %s' % res['invalid']}
        agg.add(res)
        for v in res.get('viol', ()):
            if v not in viol:
                m = agg.maps['other_aspects']
                m[v['aspect']] = m.get(v['aspect'], 0) + 1
        if out['sample'] is None and res.get('stats') and (res['stats'].get('switches') or i > 5 * NWORK):
            out['sample'] = {'run': i, 'seed': s, 'stats': res['stats'], 'schedule': res.get('trace', [])[:40],
                             'program': shorten(scn)}
        if viol:
            out['fail'] = {'run': i, 'scn': scn, 'viol': viol[:5], 'trace': res.get('trace'), 'digest': res.get('digest')}
            break
    out['agg'] = agg.dump()
    out['forks'] = forkrun.counts['forks']
    out['wall'] = time.monotonic() - t0
    return out


def shorten(scn):
    t = json.dumps(scn.get('threads', scn))
    return t if len(t) < 1500 else t[:1500] + '...'


def main():
    pid, seed, w, n, deadline = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
    real = os.dup(1)
    os.dup2(2, 1)
    out = worker(pid, seed, w, n, deadline)
    with os.fdopen(real, 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
