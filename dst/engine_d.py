"""Engine D (C06): every program of a run gives what it gives when it is run alone.

No model is involved: the oracle for a program that ran concurrently with, or inside the
callbacks of, other programs is the same program executed by the same library in a
pristine process of its own.
"""
import copy
import json
import random

import gen
import engine_m
import world as W
import judge as J
import runner

PARAMS = {'threads': [(1, 2), (2, 5), (3, 3)], 'nested': 0.25, 'churn': 0.0, 'intr': 0.15, 'probe': 0.35,
          'soft': 0.25, 'hard': 0.12, 'classes': (1, 3), 'shared': 0.6}


def strip(x):
    """The program without the programs it runs in its callbacks."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    if isinstance(x, list):
        return [strip(v) for v in x if not (isinstance(v, dict) and v.get('a') == 'run')]
    return x


def programs(scn):
    out = {}

    def walk(x):
        if isinstance(x, dict):
            if 'ops' in x and 'g' in x:
                out[x['g']] = x
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(scn['threads'])
    return out


def label(obj, r, cls=True):
    if obj is None:
        return None
    if not isinstance(obj, W.Schema):
        return type(obj).__name__
    for n, i in (r.slots or {}).items():
        if i is obj:
            return 'slot ' + n
    return 'a ' + type(obj).__name__


def attributions(err, r, depth=0):
    out = []
    if depth > 8:
        return out
    for e in err.errors:
        c = e.context
        if getattr(c, 'schema', None) is not e.schema:
            c = None        # an error about no value (missing, unknown) has no context of its own
        try:
            f = W.fname(e.field) if e.field is not None else None
        except Exception as x:
            f = repr(x)
        d = [W.canon_key(e.key), f, label(e.schema, r), type(c).__name__,
             None if not hasattr(c, 'field') else W.fname(c.field),
             None if not hasattr(c, 'value') else W.canon_raw(c.value),
             repr(e.state)]
        if isinstance(e.message, dict):
            for l in e.message.values():
                for x in l:
                    out += [[d, s] for s in nested(x, r, depth + 1)]
        else:
            d.append(str(e.message))
        out.append(d)
    return sorted(out, key=js)


def nested(e, r, depth):
    class One:
        errors = [e]
    return attributions(One, r, depth)


def js(x):
    return json.dumps(x, sort_keys=True, default=str)


def observe(w):
    """group -> list of executions -> list of per-operation observations"""
    j = J.Judge(w)
    notes = {}
    for aspect, msg, gid, idx in w.notes:
        notes.setdefault((gid, idx), set()).add(aspect + ': ' + msg)
    out = {}
    for gid, execs in w.groups.items():
        many = len(execs) > 1
        for results, env in execs:
            obs = []
            for idx, r in enumerate(results):
                if r.kind == 'skip':
                    obs.append({'kind': 'skip'})
                    continue
                if r.intr:
                    obs.append({'kind': 'interrupted'})
                    break
                o = {'kind': r.kind, 'outcome': None if r.kind in ('ok', 'verr') else j.got(r), 'value': r.value,
                     'report': sorted(r.report, key=js) if r.report is not None else None,
                     'state': r.state,
                     'callbacks': sorted((event(e) for e in r.events), key=js),
                     'attribution': None, 'notes': sorted(notes.get((gid, idx), ()))}
                if many:
                    o['notes'] = []
                if r.kind == 'verr':
                    o['attribution'] = [label(r.exc.schema, r), attributions(r.exc, r)]
                obs.append(o)
            out.setdefault(gid, []).append(obs)
    return out


def event(e):
    k = e[0]
    if k in ('load', 'raw', 'val'):
        return [k, e[1], e[2], e[4]]
    if k == 'dump':
        return [k, e[1], e[2]]
    if k == 'pre':
        return [k, e[1], e[3]]
    if k == 'post':
        return [k, e[2]]
    if k == 'def':
        return [k, e[1], e[4]]
    return list(e)


def together(scn):
    w, res = engine_m.setup(scn)
    if w is None:
        return res
    res = engine_m.simulate(w, scn) or {'viol': [], 'obs': observe(w)}
    res['stats'] = engine_m.stats(w, scn)
    res['trace'] = w.sched.trace
    res['digest'] = engine_m.digest(w)
    return res


def alone(scn):
    w, res = engine_m.setup(scn)
    if w is None:
        return res
    return engine_m.simulate(w, scn) or {'viol': [], 'obs': observe(w)}


ASPECT = {'kind': 'outcome', 'outcome': 'outcome', 'value': 'value', 'report': 'report', 'state': 'state',
          'callbacks': 'calls', 'attribution': 'attr', 'notes': 'notes'}


class Engine:
    def __init__(self, pid):
        self.pid = pid

    def generate(self, seed):
        r = random.Random('D/%d' % seed)
        p = dict(PARAMS)
        if r.random() < 0.3:
            p['kinds'] = dict(gen.DEFAULT['kinds'], obj=12, texpr=4, tdict=3, union=3, list=3, dict=3)
        if r.random() < 0.3:
            p['soft'] = 0.5
        scn = gen.generate('D', seed, p)
        for t in scn['threads']:
            for n, op in enumerate(t['ops']):
                if op.get('intr') and n != len(t['ops']) - 1:
                    del op['intr']
        return scn

    def execute(self, scn):
        res = runner.guarded(together, scn)
        obs = res.pop('obs', None)
        if obs is None:
            return res
        progs = programs(scn)
        n = 0
        for gid in sorted(obs):
            solo = dict(scn, threads=[strip(progs[gid])], sched={'policy': 'seq', 'gran': 'hook'})
            ref = runner.guarded(alone, solo)
            n += 1
            if 'obs' not in ref:
                if ref.get('viol'):
                    return dict(res, viol=ref['viol'])
                return dict(res, **ref)
            want = ref['obs'][gid][0]
            for ex in obs[gid]:
                self.compare(progs[gid], gid, ex, want, res['viol'])
        st = res['stats']
        st['extra'] = {'programs_compared_with_a_run_alone': n,
                       'executions_compared': sum(len(x) for x in obs.values())}
        return res

    def compare(self, prog, gid, got, want, viol):
        for idx, (g, x) in enumerate(zip(got, want)):
            if 'interrupted' in (g['kind'], x['kind']):
                return
            if g == x:
                continue
            op = prog['ops'][idx]
            for k in g:
                if k == 'notes' and not set(g[k]) - set(x[k]):
                    continue
                if g[k] != x.get(k):
                    viol.append({'aspect': ASPECT[k], 'g': gid, 'op': idx, 'k': op['op'],
                                 'msg': '%s %s: %s among the other programs, %s alone'
                                 % (op['op'], k, diff(g[k], x.get(k)), diff(x.get(k), g[k]))})
                    return


def diff(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return js([x for x in a if x not in b])[:400]
    if isinstance(a, dict) and isinstance(b, dict):
        return js({k: v for k, v in a.items() if b.get(k) != v})[:400]
    return js(a)[:400]
