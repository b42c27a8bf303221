"""Engine R (C16): threads sharing one instance; each field must be a linearizable register.

With frozen fields (C07), only those are looked at: whatever the other threads do to the
instance, and however it fails, every read of a frozen field gives its first value.

Every value written is unique, so every read names the write it saw.  The history of each
field (invocation and response times are scheduling points) is searched for a
linearization, Wing & Gong style with memoization.
"""
import json
import random
import re

import engine_m
import world as W
import judge as J
import runner
from world import UNSET

TOKEN = re.compile(r'U\d+x?\b|\b\d{6}\b')


def generate(seed, frozen=False, show=False):
    r = random.Random('%s/%d' % ('RP' if show else 'RF' if frozen else 'R', seed))
    uid = [0]

    def u():
        uid[0] += 1
        return 'U%d' % uid[0]

    names = ['a', 'b', 'c'][:r.choice([1, 1, 2, 2, 3])]
    if r.random() < 0.06:
        names = ['f%d' % i for i in range(9)]
    fields = []
    vid = 0
    for n in names:
        k = r.choice(['sim', 'sim', 'sim', 'int', 'obj'])
        f = {'n': n, 'kind': k}
        if k == 'obj':
            f['cls'] = 'N'
        vals = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            vid += 1
            v = {'id': 'v%d' % vid, 'kind': r.choice(['fn', 'obj']), 'via': 'add'}
            if r.random() < 0.3:
                v['raw'] = True
            vals.append(v)
        if k == 'int' and r.random() < 0.5:
            vid += 1
            vals.append({'id': 'v%d' % vid, 'kind': 'range', 'args': [100000, 999999], 'via': 'init'})
            f['ranged'] = 1
        if vals:
            f['vals'] = vals
        if r.random() < 0.35:
            f['req'] = False
        if r.random() < 0.35:
            f['none'] = True
        if r.random() < 0.25:
            f['dk'] = 'D_' + n
        if r.random() < 0.25:
            f['lk'] = 'L_' + n
        fields.append(f)
    spec = {'name': 'S', 'fields': fields}
    if frozen:
        for f in r.sample(fields, r.randint(1, max(1, len(fields) - 1))):
            f['frozen'] = True
    if r.random() < 0.3:
        spec['config'] = {'slotted': False}
    scn = {'v': 1, 'seed': seed,
           'classes': [{'name': 'N', 'fields': [{'n': 'x', 'kind': 'sim'}]}, spec]}

    def val(f, good=True):
        if good == bool(f.get('none')) and r.random() < 0.25:
            return None
        b = {}
        x = u()
        stages = ['load'] + [('raw:' if v.get('raw') else 'val:') + v['id'] for v in f.get('vals', ())
                             if v['kind'] != 'range']
        for st in stages:
            if r.random() < 0.15:
                b[st] = [{'a': 'read', 'f': r.choice(names), 'id': x + st}]
        if not good:
            if f.get('ranged') and r.random() < 0.5:
                return {'$v': 'int', 'x': uid[0] + 10, 'u': x}
            st = r.choice(stages)
            b[st] = b.get(st, []) + [{'a': 'raise', 'soft': 1, 'e': r.choice(['ValueError', 'AssertionError']), 'tok': 't'}]
        if f['kind'] == 'sim':
            return {'$s': 1, 'u': x, 'b': b}
        if f['kind'] == 'int':
            return {'$v': 'int', 'x': 100000 + uid[0], 'u': x, 'b': b}
        return {'m': 'dict', 'i': [['x', {'$s': 1, 'u': x + 'x'}]], 'u': x, 'b': b}

    def data(fs, good=True):
        items = [[f.get('lk', f['n']), val(f)] for f in fs]
        r.shuffle(items)
        return {'m': r.choice(['dict', 'spy', 'plain']), 'i': items, 'u': u() + 'm', 'b': {}}

    scn['init'] = {'op': 'new', 'c': 'S', 'to': 's0',
                   'm': data([f for f in fields if f.get('req', True) or r.random() < 0.5])}
    mix = r.choice([{'set': 4, 'bad': 1, 'upd': 3, 'get': 4, 'dump': 2, 'copy': 1.5},
                    {'set': 3, 'bad': 0, 'upd': 3, 'get': 3, 'dump': 1, 'copy': 1},
                    {'set': 2, 'bad': 0, 'upd': 2, 'get': 0, 'dump': 4, 'copy': 4},
                    {'set': 3, 'bad': 4, 'upd': 1, 'get': 6, 'dump': 2, 'copy': 1}])
    if frozen:
        mix = r.choice([{'set': 2, 'upd': 4, 'badupd': 4, 'get': 4, 'dump': 2, 'copy': 2},
                        {'set': 1, 'upd': 1, 'badupd': 6, 'get': 6, 'dump': 2, 'copy': 2}])
    if show:
        mix = r.choice([{'set': 3, 'upd': 3, 'repr': 8, 'copy': 1}, {'set': 4, 'bad': 2, 'upd': 1, 'repr': 5}])
        for f in fields:
            if r.random() < 0.5:
                f['req'] = False
        scn['init']['m'] = data([f for f in fields if f.get('req', True) or r.random() < 0.4])
    kinds = [k for k, n in mix.items() for _ in range(int(n * 2))]
    threads = []
    for t in range(r.choice([2, 2, 3, 4])):
        ops = []
        copies = []
        for _ in range(r.randint(2, 5)):
            k = r.choice(kinds)
            f = r.choice(fields)
            if k in ('set', 'bad'):
                op = {'op': 'set', 's': 's0', 'f': f['n'], 'v': val(f, k == 'set')}
                if copies and r.random() < 0.2:
                    op['s'] = r.choice(copies)
            elif k == 'upd':
                op = {'op': 'upd', 's': 's0', 'm': data(r.sample(fields, r.randint(1, len(fields))))}
                if copies and r.random() < 0.2:
                    op['s'] = r.choice(copies)
            elif k == 'badupd':
                thawed = [x for x in fields if not x.get('frozen')] or fields
                m = data(r.sample(thawed, r.randint(1, len(thawed))))
                m['i'].insert(r.randint(0, len(m['i'])), ['zz', 1])
                if r.random() < 0.5:
                    x = r.choice(thawed)
                    m['i'] = [i for i in m['i'] if i[0] != x.get('lk', x['n'])] + [[x.get('lk', x['n']), val(x, False)]]
                op = {'op': 'upd', 's': 's0', 'm': m}
            elif k == 'get':
                op = {'op': 'get', 's': 's0', 'n': f['n'], 'via': r.choice(['attr', 'gv', 'gvd'])}
            elif k == 'dump':
                op = {'op': 'dump', 's': 's0', 't': 'list'}
                if r.random() < 0.3:
                    op['inc'] = [f['n']]
            elif k == 'repr':
                op = {'op': 'repr', 's': 's0', 'via': r.choice(['repr', 'repr', 'str', 'fmt'])}
                if copies and r.random() < 0.2:
                    op['s'] = r.choice(copies)
            else:
                c = 'c%d_%d' % (t, len(copies))
                op = {'op': 'copy', 's': 's0', 'to': c}
                copies.append(c)
            ops.append(op)
        threads.append({'g': 'T%d' % t, 'ops': ops})
    scn['threads'] = threads
    if frozen:
        scn['shared'] = 'frozen'
    if show:
        scn['shared'] = 'show'
    g = r.choice(['opcode', 'opcode', 'opcode', 'line', 'line', 'hook'])
    base = {'hook': (0.2, 0.5), 'line': (0.02, 0.1, 0.3), 'opcode': (0.005, 0.02, 0.08)}[g]
    scn['sched'] = {'policy': r.choice(['rand', 'rand', 'pct']), 'gran': g, 'p': r.choice(base), 'k': r.randint(1, 6),
                    'horizon': {'hook': 50, 'line': 700, 'opcode': 5000}[g], 'seed': r.randrange(1 << 30)}
    return scn


def token(c):
    """Which write a value comes from."""
    if c == ['D', None]:
        return None
    if c is None or c == UNSET:
        return c
    m = TOKEN.search(json.dumps(c))
    return m.group(0) if m else json.dumps(c)


def wtoken(v):
    if v is None:
        return None
    if '$s' in v:
        return v['u']
    if '$v' in v:
        return '%d' % v['x']
    return v['i'][0][1]['u'] if v['i'] else None


def simulate(w, scn):
    import simsched
    s = simsched.Scheduler(scn['sched'], step_cap=engine_m.step_cap(scn))
    w.sched = s
    env = {'slots': {}, 'gid': 'shared'}

    # the instance is made before the threads start
    pre = simsched.Scheduler({'policy': 'seq', 'gran': 'hook'})
    w.sched = pre
    pre.run([lambda task: w.run_prog({'g': 'init', 'ops': [scn['init']]}, env)])
    w.sched = s
    init = w.groups.pop('init')[0][0][0]
    if init.kind != 'ok':
        return None, {'viol': [runner.bug('failed', 'construction ended with %s' % J.short(init.exc))]}
    inst = env['slots']['s0']
    start = {n: token(W.canon(inst.get_value_for(n, UNSET))) for n in type(inst).__w_fields__}
    s.run([(lambda task, p=p: w.run_prog(p, env)) for p in scn['threads']])
    for t in s.tasks:
        if t.error is not None:
            return None, {'viol': [runner.bug('malformed', engine_m.tb(t.error))]}
    if s.aborted:
        return None, {'viol': [runner.bug('hang', s.aborted)]}
    final = {n: token(W.canon(inst.get_value_for(n, UNSET))) for n in start}
    return (inst, start, final), None


def history(w, scn, start, final):
    """(field -> list of (kind, token, inv, res, what), problems)"""
    S = w.classes['S']
    F = {n: getattr(S, n) for n in start}
    by_lk = {f.load_key: n for n, f in F.items()}
    none_ok = {n: f.none for n, f in F.items()}
    hist = {n: [] for n in start}
    bad = []
    rejected = 0
    for p in scn['threads']:
        for results, env in w.groups.get(p['g'], ()):
            for op, r in zip(p['ops'], results):
                k = op['op']
                for f, got, i, j in r.probes:
                    if op['s'] == 's0':
                        hist[f].append(('r', token(got), i, j, 'a callback of ' + p['g']))
                if op['s'] != 's0' or r.kind == 'skip':
                    continue
                what = '%s of %s' % (k, p['g'])
                fine = r.kind == 'ok'
                if k == 'set':
                    expect = none_ok[op['f']] if op['v'] is None else '"raise"' not in json.dumps(op['v']) and not (op['v'].get('$v') == 'int' and op['v']['x'] < 100000)
                    if fine != expect:
                        bad.append('%s ended with %s' % (what, r.kind if fine else J.short(r.exc)))
                    if fine:
                        hist[op['f']].append(('w', wtoken(op['v']), r.inv, r.res, what))
                    else:
                        rejected += 1
                elif k == 'upd':
                    if not fine:
                        bad.append('%s failed: %s' % (what, J.short(r.exc)))
                        continue
                    for lk, v in op['m']['i']:
                        if lk in by_lk:
                            hist[by_lk[lk]].append(('w', wtoken(v), r.inv, r.res, what))
                elif k == 'get':
                    if fine:
                        hist[op['n']].append(('r', token(r.value), r.inv, r.res, what))
                    elif isinstance(r.exc, W.oblate.FieldNotSet):
                        hist[op['n']].append(('r', UNSET, r.inv, r.res, what))
                    else:
                        bad.append('%s failed: %s' % (what, J.short(r.exc)))
                elif k == 'dump':
                    if not fine:
                        bad.append('%s failed: %s' % (what, J.short(r.exc)))
                        continue
                    d = dict(r.value[1])
                    for n, f in F.items():
                        if op.get('inc') is not None and n not in op['inc']:
                            continue
                        hist[n].append(('r', token(d[f.dump_key]) if f.dump_key in d else UNSET, r.inv, r.res, what))
                elif k == 'copy':
                    if not fine:
                        bad.append('%s failed: %s' % (what, J.short(r.exc)))
                        continue
                    for n in F:
                        hist[n].append(('r', r.copied.get(n), r.inv, r.res, what))
    end = 1 << 60
    for n, v in final.items():
        hist[n].append(('r', v, end, end, 'the final read'))
    return hist, bad, rejected


def frozen_history(w, scn, start, final):
    """The reads of the frozen fields only; nothing ever writes them."""
    S = w.classes['S']
    F = {n: getattr(S, n) for n in start if getattr(S, n).frozen}
    by_lk = {f.load_key: n for n, f in F.items()}
    hist = {n: [] for n in F}
    bad = []
    for p in scn['threads']:
        for results, env in w.groups.get(p['g'], ()):
            for op, r in zip(p['ops'], results):
                k = op['op']
                what = '%s of %s' % (k, p['g'])

                def read(n, tok):
                    if n in hist:
                        hist[n].append(('r', tok, r.inv, r.res, what))
                for f, got, i, j in r.probes:
                    read(f, token(got))
                if r.kind == 'skip':
                    continue
                fine = r.kind == 'ok'
                frozen = isinstance(r.exc, W.oblate.FrozenError)
                if k == 'set' and (op['f'] in F) != frozen:
                    bad.append('%s of %r ended with %s' % (what, op['f'], r.kind if fine else J.short(r.exc)))
                elif k == 'upd' and frozen != any(lk in by_lk for lk, v in op['m']['i']):
                    bad.append('%s ended with %s' % (what, r.kind if fine else J.short(r.exc)))
                elif k == 'get' and op['n'] in F:
                    if not fine and not isinstance(r.exc, W.oblate.FieldNotSet):
                        bad.append('%s ended with %s' % (what, J.short(r.exc)))
                    read(op['n'], token(r.value) if fine else UNSET)
                elif k == 'dump' and fine:
                    d = dict(r.value[1])
                    for n, f in F.items():
                        if op.get('inc') is None or n in op['inc']:
                            read(n, token(d[f.dump_key]) if f.dump_key in d else UNSET)
                elif k == 'copy' and fine:
                    for n in F:
                        read(n, r.copied.get(n))
            for c in env['slots'].values():
                for n in F if c is not None else ():
                    hist[n].append(('r', token(W.canon(c.get_value_for(n, UNSET))), 1 << 60, 1 << 60, 'the final read'))
    return hist, bad, 0


def parse(text, names):
    """The fields and values a representation shows."""
    out = {}
    parts = re.split(r'(?:^\w+\(|, )(%s)=' % '|'.join(names), text)
    for n, seg in zip(parts[1::2], parts[2::2]):
        m = TOKEN.search(seg)
        out[n] = m.group(0) if m else None if 'None' in seg else 'what is shown as %r' % seg
    return out


def show_history(w, scn, start, final):
    """The writes, and what the representations showed."""
    S = w.classes['S']
    F = {n: getattr(S, n) for n in start}
    by_lk = {f.load_key: n for n, f in F.items()}
    hist = {n: [] for n in start}
    bad = []
    for p in scn['threads']:
        for results, env in w.groups.get(p['g'], ()):
            for op, r in zip(p['ops'], results):
                k = op['op']
                what = '%s of %s' % (k, p['g'])
                if op['s'] != 's0' or r.kind == 'skip':
                    continue
                if k == 'set' and r.kind == 'ok':
                    hist[op['f']].append(('w', wtoken(op['v']), r.inv, r.res, what))
                elif k == 'upd' and r.kind == 'ok':
                    for lk, v in op['m']['i']:
                        if lk in by_lk:
                            hist[by_lk[lk]].append(('w', wtoken(v), r.inv, r.res, what))
                elif k == 'repr':
                    if r.kind != 'ok':
                        bad.append('%s failed: %s' % (what, J.short(r.exc)))
                    elif not isinstance(r.value, str) or not r.value.startswith('S('):
                        bad.append('%s gave %r' % (what, r.value))
                    else:
                        d = parse(r.value, list(F))
                        for n in F:
                            hist[n].append(('r', d.get(n, UNSET), r.inv, r.res, what))
    return hist, bad, 0


def linearizable(ops, start, budget=400000):
    """True, False or None (too large)."""
    n = len(ops)
    pred = [0] * n
    for i, a in enumerate(ops):
        for j, b in enumerate(ops):
            if i != j and b[3] < a[2]:
                pred[i] |= 1 << j
    full = (1 << n) - 1
    seen = set()
    stack = [(0, start)]
    while stack:
        st = stack.pop()
        if st in seen:
            continue
        seen.add(st)
        if len(seen) > budget:
            return None
        mask, val = st
        if mask == full:
            return True
        # reads of the current value can always go first
        for i in range(n):
            if not mask >> i & 1 and pred[i] & ~mask == 0 and ops[i][0] == 'r' and ops[i][1] == val:
                stack.append((mask | 1 << i, val))
                break
        else:
            for i in range(n):
                if not mask >> i & 1 and pred[i] & ~mask == 0 and ops[i][0] == 'w':
                    stack.append((mask | 1 << i, ops[i][1]))
    return False


def run(scn):
    w, res = engine_m.setup(scn)
    if w is None:
        return res
    try:
        x, res = simulate(w, scn)
    except (KeyError, IndexError, W.Invalid) as e:
        return {'invalid': repr(e)}
    if res is not None and scn.get('shrunk') and res['viol'][0]['aspect'] == 'malformed':
        return {'invalid': 'malformed'}
    extra = {}
    if res is None:
        inst, start, final = x
        viol = []
        hist, bad, rejected = {'frozen': frozen_history, 'show': show_history}.get(scn.get('shared'), history)(w, scn, start, final)
        for b in bad[:5]:
            viol.append(runner.bug('failed', b))
        extra = {'field_histories_checked': len(hist), 'register_operations': sum(map(len, hist.values())),
                 'rejected_assignments': rejected}
        for n, ops in sorted(hist.items()):
            ok = linearizable(ops, start[n])
            if ok is None:
                extra['histories_too_large'] = extra.get('histories_too_large', 0) + 1
            if ok is False:
                viol.append(runner.bug('lin', 'field %r (initially %s) %s: %s' % (
                    n, start[n], 'is frozen, but' if scn.get('shared') == 'frozen' else 'is not linearizable', '; '.join('%s %s %s @%s-%s' % (o[4], {'r': 'read', 'w': 'wrote'}[o[0]], o[1], o[2],
                                                                 o[3] if o[3] < 1 << 59 else 'end') for o in ops))))
        res = {'viol': viol}
    res['stats'] = engine_m.stats(w, scn)
    res['stats']['extra'] = extra
    res['trace'] = w.sched.trace
    res['digest'] = engine_m.digest(w)
    return res


class Engine:
    def __init__(self, pid):
        self.pid = pid

    def generate(self, seed):
        return generate(seed)

    def execute(self, scn):
        return runner.guarded(run, scn)
