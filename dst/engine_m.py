"""Engine M: one execution of a scenario, judged against the reference model."""
import sys
import json
import traceback
import warnings
import zlib

import seams
seams.load()
import simsched
import world as W
import judge as J

STEP_CAP = 3_000_000


def step_cap(scn):
    """More steps than the scenario can take, unless something never ends."""
    return STEP_CAP + 40 * len(json.dumps(scn['threads']))


def tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]


def setup(scn):
    """Builds the world; (world, None) or (None, result)."""
    warnings.simplefilter('ignore')
    w = W.World(scn)
    try:
        w.build()
        w.index_specs()
    except W.Invalid as e:
        return None, {'invalid': str(e)}
    except Exception as e:
        return None, {'viol': [{'aspect': 'define', 'msg': 'defining the schemas raised %s' % tb(e)[-700:],
                                'g': None, 'op': None, 'k': None}]}
    return w, None


def simulate(w, scn):
    """Runs the threads of the scenario; None or a result that ends the run."""
    s = simsched.Scheduler(scn.get('sched') or {'policy': 'seq'}, step_cap=step_cap(scn))
    s.interrupts = '"intr"' in json.dumps(scn['threads'])
    w.sched = s
    fns = [(lambda task, p=p: w.run_prog(p)) for p in scn['threads']]
    for acts in [scn.get('churner')] + scn.get('churners', []):
        if acts:
            fns.append(lambda task, acts=acts: w.run_churner(acts))
    s.run(fns)
    for t in s.tasks:
        if t.error is not None:
            if isinstance(t.error, (W.Invalid, KeyError, IndexError)) and scn.get('shrunk'):
                return {'invalid': repr(t.error)}
            return {'viol': [{'aspect': 'malformed', 'msg': tb(t.error), 'g': None, 'op': None, 'k': None}]}
    if s.aborted:
        return {'viol': [{'aspect': 'hang', 'msg': 'the simulated threads made no progress: ' + s.aborted,
                          'g': None, 'op': None, 'k': None}]}
    return None


def stats(w, scn):
    s = w.sched
    ops = {}
    for gid, runs in w.groups.items():
        for results, _ in runs:
            for r in results:
                ops[r.kind] = ops.get(r.kind, 0) + 1
                if r.intr:
                    w.count('interrupt@line' if not r.intrk else r.intrk + '@line')
    faults = dict(w.faults)
    shape = json.dumps([sorted(ops.items()), sorted(faults), s.sig, s.step], sort_keys=True)
    return {'ops': ops, 'faults': faults, 'steps': s.step, 'switches': s.n_switch, 'threads': len(s.tasks),
            'sig': s.sig, 'shape': zlib.crc32(shape.encode()),
            'gran': s.gran if len(s.tasks) > 1 else 'one', 'policy': s.policy if len(s.tasks) > 1 else 'one'}


def run(scn):
    w, res = setup(scn)
    if w is None:
        return res
    res = simulate(w, scn)
    if res is None:
        j = J.Judge(w)
        try:
            viol = j.run()
        except Exception as e:
            if scn.get('shrunk'):
                return {'invalid': tb(e)}
            viol = j.out + [{'aspect': 'malformed', 'msg': tb(e), 'g': None, 'op': None, 'k': None}]
        res = {'viol': viol}
    res['stats'] = stats(w, scn)
    res['trace'] = w.sched.trace
    res['digest'] = digest(w)
    return res


def digest(w):
    """What happened, in order: equal for equal runs, whatever the process."""
    d = 0
    for gid in sorted(w.groups):
        for results, env in w.groups[gid]:
            for r in results:
                rep = sorted(map(json.dumps, r.report)) if r.report is not None else None
                x = [gid, r.kind, r.value, rep, r.state, r.intr and list(r.intr) if r.intr else None, r.inv, r.res,
                     type(r.exc).__name__]
                d = zlib.crc32(json.dumps(x, sort_keys=True, default=str).encode(), d)
    return d
