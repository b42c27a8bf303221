"""Engine E: executions that must agree with one another (C15, C21).

One run executes several programs on as many simulated threads, each handing the same
raw data (with the same behaviours of the user code reached by it: failures, re-entrant
programs) to the library in another way.  What they observed is compared; no model is
involved.
"""
import copy
import json
import random
import re

import gen
import model as M
import engine_m
import world as W
import judge as J
import runner

PARAMS = {'inst': 0.3, 'inherit': 0.4, 'nested': 0.06, 'churn': 0.0, 'intr': 0.0, 'read': 0.0, 'selfset': 0.0, 'selfupd': 0.0, 'misuse': 0.0, 'soft': 0.3, 'classes': (2, 4),
          'fields': (1, 5), 'frozen_field': 0.06, 'frozen_schema': 0.03, 'probe': 0.05, 'none': 0.45,
          'vals': [(0, 2), (1, 4), (2, 3), (3, 2)], 'raw': 0.4, 'missing': 0.15, 'unknown': 0.2, 'none_bad': 0.12}


def relabel(x, p):
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k in ('u', 'g') and isinstance(v, str):
                out[k] = '@%s.%s' % (p, v)
            else:
                out[k] = relabel(v, p)
        return out
    if isinstance(x, list):
        return [relabel(v, p) for v in x]
    return x


def plain(x):
    """Without thread labels and addresses."""
    t = re.sub(r'@\w+\.', '', json.dumps(x, sort_keys=True, default=str))
    return re.sub(r'0x[0-9a-fA-F]+', '0x', t)


class Base:
    def __init__(self, seed, tag, params):
        self.r = random.Random('%s/%d' % (tag, seed))
        p = dict(PARAMS)
        p.update(params)
        if self.r.random() < 0.25:
            p['kinds'] = dict(gen.DEFAULT['kinds'], obj=14)
        self.g = gen.Gen(tag, seed, p)
        self.hard = None

    def clean_data(self, cname, alive, env):
        g = self.g
        g.clean, g.env, g.target = True, env, None
        m = g.mapping(cname, 'new', alive)
        g.clean = False
        return m

    def slots(self, r, mdl, env, prog, n):
        """Instances that values may refer to."""
        for i in range(n):
            c = r.choice(self.g.scn['classes'])['name']
            op = {'op': 'new', 'c': c, 'to': 'i%d' % i, 'm': self.clean_data(c, [], env)}
            if mdl.step(op, env).kind != 'ok':
                env.pop(op['to'], None)
                continue
            prog.append(op)
        return [(s, v.cls.name) for s, v in env.items() if v is not None]

    def add_hard(self):
        if self.g.cand and self.r.random() < 0.12:
            b, st = self.r.choice(self.g.cand)
            b[st] = [a for a in b.get(st, ()) if a['a'] != 'raise'] + [self.g.hard_raise()]
            if st.startswith('items') and b[st][-1]['e'] == 'StopIteration':
                b[st][-1]['e'] = 'LookupError'
            return True
        return False

    def done(self, tmpl, n):
        r, scn = self.r, self.g.scn
        tmpl['order'] = list(range(n))
        r.shuffle(tmpl['order'])
        tmpl['flip'] = r.randrange(1 << 30)
        scn['tmpl'] = tmpl
        scn['sched'] = self.g.sched(n) if r.random() < 0.6 else {'policy': 'seq', 'gran': 'hook'}
        return scn


def has_hard(x):
    if isinstance(x, dict):
        return (x.get('a') == 'raise' and not x.get('soft')) or any(has_hard(v) for k, v in x.items()
                                                                 if k not in ('prog', 'dump'))
    return isinstance(x, list) and any(has_hard(v) for v in x)


def expand(scn):
    """The programs of a template: they differ only in how the data reaches the library."""
    t = scn['tmpl']
    progs = (expand15 if t['kind'] == 'C15' else expand21)(scn, t, random.Random(t['flip']))
    out = copy.deepcopy({k: v for k, v in scn.items() if k != 'tmpl'})
    order = [i for i in t['order'] if i < len(progs)]
    out['threads'] = [{'g': '@T%d' % i, 'ops': [relabel(o, 'T%d' % i) for o in progs[i]]} for i in order]
    return out


def gen15(seed):
    for k in range(50):
        s = _gen15(seed * 64 + k)
        if s is not None:
            return s


def _gen15(seed):
    b = Base(seed, 'C15', {'dumpfault': 0.0})
    g, r = b.g, b.r
    g.classes()
    mdl = M.Model(g.scn)
    env = {}
    pre = []
    g.cand = []
    alive = b.slots(r, mdl, env, pre, r.choice([0, 0, 1, 2]))
    cands = [c for c in g.mc.values() if not c.config.get('frozen')
             and any(not f.spec.get('frozen') for f in c.fields.values())]
    if not cands:
        return None
    cls = r.choice(cands)
    base = b.clean_data(cls.name, alive, env)
    op = {'op': 'new', 'c': cls.name, 'to': 's0', 'm': base}
    if mdl.step(op, env).kind != 'ok':
        return None
    fields = [f for f in cls.fields.values() if not f.spec.get('frozen')]
    chosen = r.sample(fields, min(len(fields), r.choice([1, 1, 1, 2, 3])))
    g.cand = []
    over = []
    for f in chosen:
        v = g.value(f, cls, 'upd', alive, {x.name for x in chosen})
        over.append([f.name, f.lk, v])
    unknown = []
    hard = len(over) == 1 and b.add_hard()
    if not hard and r.random() < 0.35:
        known = {f.lk for f in cls.fields.values()}
        pool = [k for k in ['zz', '', 'K_zz', 'self'] + sorted(cls.fields) if k not in known] + [5, {'$t': [1, 2]}]
        unknown = [[k, r.choice([1, 'x', None])] for k in r.sample(pool, min(len(pool), r.choice([1, 2])))]
    base['i'] = [i for i in base['i'] if i[0] not in ('__drop__', '__empty__')]
    return b.done({'kind': 'C15', 'pre': pre, 'c': cls.name, 'base': base, 'over': over, 'unknown': unknown,
                   'ie': r.choice([None, None, None, True, False]), 'mk': r.choice(['dict', 'spy', 'plain'])}, 3)


def expand15(scn, t, r):
    cls = M.flatten(scn)[t['c']]
    for n, lk, _ in t['over']:
        if n not in cls.fields or cls.fields[n].lk != lk or cls.fields[n].spec.get('frozen'):
            raise W.Invalid('over')
    data = [[lk, v] for _, lk, v in t['over']] + t['unknown']
    r.shuffle(data)
    new_items = [i for i in t['base']['i'] if i[0] not in [lk for _, lk, _ in t['over']]] + data
    r.shuffle(new_items)

    def mp(items, u):
        m = {'m': t['mk'], 'i': items}
        if t['mk'] != 'plain':
            m['u'] = u
            m['b'] = {}
        return m

    gets = [{'op': 'get', 's': 's0', 'n': n, 'via': 'gvd'} for n, _, _ in t['over']]
    mk = {'op': 'new', 'c': t['c'], 'to': 's0', 'm': t['base']}
    a = t['pre'] + [mk]
    for n, _, v in t['over']:
        a = a + [{'op': 'set', 's': 's0', 'f': n, 'v': v}, {'op': 'get', 's': 's0', 'n': n, 'via': 'gvd'}]
    u = {'op': 'upd', 's': 's0', 'm': mp(data, 'MU')}
    c = {'op': 'new', 'c': t['c'], 'to': 's0', 'm': mp(new_items, 'MC')}
    if t.get('ie') is not None:
        u['ie'] = c['ie'] = t['ie']
    return [a, t['pre'] + [mk, u] + gets, t['pre'] + [c] + gets]


def gen21(seed):
    for k in range(50):
        s = _gen21(seed * 64 + k)
        if s is not None:
            return s


def _gen21(seed):
    b = Base(seed, 'C21', {'dumpfault': 0.25, 'default': 0.5})
    g, r = b.g, b.r
    g.classes()
    scn = g.scn
    inner = r.choice(scn['classes'])['name']
    ik = r.choice([None, None, {'ignore_extra': True}, {'state': {'k': 1}}, {'ignore_extra': False},
                   {'state': 5, 'ignore_extra': True}, {'state': {'a': [1]}, 'ignore_extra': False}])
    o = {'n': 'o', 'kind': 'obj', 'cls': inner}
    if ik:
        o['ik'] = ik
    if r.random() < 0.4:
        o['lk'] = 'the-o'
    if r.random() < 0.4:
        o['dk'] = 'O'
    if r.random() < 0.4:
        o['none'] = True
    if r.random() < 0.3:
        o['fmt'] = r.choice(['str', 'none', 'partial'])
    extra = []
    for n in r.sample(['p', 'r'], r.randint(0, 2)):
        f = {'n': n, 'kind': r.choice(['sim', 'int', 'str']), 'req': False}
        if r.random() < 0.5:
            f['vals'] = [{'id': g.uid('v'), 'kind': 'fn', 'via': 'deco'}]
        extra.append(f)
    ex = {'name': 'EX', 'fields': [o] + extra}
    if r.random() < 0.3:
        ex['fields'].reverse()
    if r.random() < 0.3:
        ex['config'] = {'ignore_extra': True}
    if r.random() < 0.5:
        ex['pre'] = 'id'
    if r.random() < 0.4:
        ex['post'] = True
    q = {'n': 'q', 'kind': 'obj', 'cls': 'EX'}
    if r.random() < 0.4:
        q['lk'] = 'the-q'
    ey = {'name': 'EY', 'fields': [q], 'pre': 'id'}
    scn['classes'] += [ex, ey]
    g.mc = M.flatten(scn)
    mdl = M.Model(scn)
    env = {}
    pre = []
    g.cand = []
    scn['classes'] = scn['classes'][:-2]
    alive = b.slots(r, mdl, env, pre, r.choice([0, 0, 1]))
    scn['classes'] += [ex, ey]
    good = b.clean_data(inner, alive, env)
    if mdl.step({'op': 'new', 'c': inner, 'to': 'x', 'm': good}, env).kind != 'ok':
        return None
    env.pop('x')
    g.cand = []
    if r.random() < 0.85:
        m = g.mapping(inner, 'new', alive)
    else:
        m = b.clean_data(inner, alive, env)
    hard = b.add_hard()
    side = []
    exc = g.mc['EX']
    for f in extra:
        if not hard and r.random() < 0.7:
            g.cand = []
            v = g.value(exc.fields[f['n']], exc, 'new', [], allow_bad=True)
            for acts in (v.get('b') or {}).values() if isinstance(v, dict) else ():
                acts[:] = [a for a in acts if a['a'] != 'raise' or a.get('soft')]
            side.append([f['n'], v])
    modes = ['direct'] + r.sample(['new', 'upd', 'set', 'deep', 'inst'], r.randint(2, 4))
    s = None
    if r.random() < 0.5:
        # instances of a subclass are instances, too
        s = {'name': 'SB', 'bases': [inner], 'fields': [{'n': 'zq', 'kind': 'sim', 'req': False}] if r.random() < 0.5 else []}
        scn['classes'].insert(-2, s)
    outer = {}
    if r.random() < 0.4:
        outer['ostate'] = r.choice([7, 'st', {'k': 2}, {}, [1]])
    if r.random() < 0.4:
        outer['oie'] = r.random() < 0.6
    return b.done({'kind': 'C21', **outer, 'sub': s and 'SB', 'pre': pre, 'c': inner, 'good': good, 'm': m, 'side': side, 'modes': modes}, len(modes))


def expand21(scn, t, r):
    fl = M.flatten(scn)
    o, q = fl['EX'].fields['o'], fl['EY'].fields['q']
    if o.spec['kind'] != 'obj' or q.spec['kind'] != 'obj' or fl['EX'].config.get('frozen') or o.spec.get('frozen'):
        raise W.Invalid('EX')
    if any(n not in fl['EX'].fields for n, _ in t['side']) or t['modes'][:1] != ['direct']:
        raise W.Invalid('side')
    ik = o.spec.get('ik') or {}
    m, good, pre, inner = t['m'], t['good'], t['pre'], t['c']

    def outer(u, v, ss=True):
        items = [[o.lk, v]] + (t['side'] if ss else [])
        if r.random() < 0.5:
            items = items[::-1]
        return {'m': 'dict', 'i': items, 'u': u, 'b': {}}

    dump = {'op': 'dump', 's': 's0', 't': 'list'}
    d = {'op': 'new', 'c': inner, 'to': 's0', 'm': m}
    if 'state' in ik:
        d['state'] = ik['state']
    if 'ignore_extra' in ik:
        d['ie'] = ik['ignore_extra']
    mk = {'op': 'new', 'c': 'EX', 'to': 's0', 'm': outer('ME', good, False)}
    get = {'op': 'get', 's': 's0', 'n': 'o', 'via': 'gvd'}
    again = [{'op': 'set', 's': 's0', 'f': 'o', 'v': {'$i': 's2'}},
             {'op': 'upd', 's': 's0', 'm': outer('MP', {'$i': 's2'}, False)}]
    gs = good
    if t.get('sub') and 'zq' in fl['SB'].fields and t['flip'] % 3:
        gs = dict(good, i=good['i'] + [['zq', {'$s': 1, 'u': 'uzq'}]])
    progs = {
        'direct': [d, dump],
        'new': [{'op': 'new', 'c': 'EX', 'to': 's0', 'm': outer('MO', m)}, dump, get],
        'upd': [mk, {'op': 'upd', 's': 's0', 'm': outer('MO', m)}, dump, get],
        'set': [mk, {'op': 'set', 's': 's0', 'f': 'o', 'v': m}, dump, get],
        'deep': [{'op': 'new', 'c': 'EY', 'to': 's0', 'm': {'m': 'dict', 'i': [[q.lk, outer('MO', m)]], 'u': 'MQ', 'b': {}}},
                 dump, {'op': 'get', 's': 's0', 'n': 'q', 'via': 'gvd'}],
        'inst': [{'op': 'new', 'c': t.get('sub') or inner, 'to': 's1', 'm': gs},
                 {'op': 'new', 'c': 'EX', 'to': 's0', 'm': outer('MO', {'$i': 's1'}, False)}, get,
                 {'op': 'new', 'c': t.get('sub') or inner, 'to': 's2', 'm': gs}, r.choice(again), get,
                 dump, dict(dump, s='s2')],
    }
    if t.get('ostate') is not None:
        # what is given to the enclosing construction says nothing about the nested one
        for n in ('new', 'deep'):
            progs[n][0]['state'] = t['ostate']
        progs['inst'][1]['state'] = t['ostate']
        progs['upd'][0] = progs['set'][0] = dict(mk, state=t['ostate'])
    if t.get('oie') is not None:
        for n, i in (('new', 0), ('deep', 0), ('upd', 1)):
            progs[n][i]['ie'] = t['oie']
    return [pre + progs[n] for n in t['modes']]


# -- execution and comparison ------------------------------------------------------

def run(scn):
    try:
        full = expand(scn)
    except (W.Invalid, KeyError, IndexError) as e:
        return {'invalid': repr(e)}
    w, res = engine_m.setup(full)
    if w is None:
        return res
    res = engine_m.simulate(w, full)
    if res is None:
        viol = []
        try:
            compare(w, scn, viol)
        except (IndexError, KeyError) as e:
            return {'invalid': repr(e)}
        res = {'viol': viol}
    res['stats'] = engine_m.stats(w, full)
    res['trace'] = w.sched.trace
    res['digest'] = engine_m.digest(w)
    return res


def compare(w, scn, viol):
    j = J.Judge(w)
    fl = M.flatten(scn)
    cmp = dict(scn['tmpl'])
    cmp['hard'] = has_hard(cmp)
    if cmp['kind'] == 'C21':
        cmp.update(olk=fl['EX'].fields['o'].lk, odk=fl['EX'].fields['o'].dk, qlk=fl['EY'].fields['q'].lk)
    runs = {}
    for gid, ex in w.groups.items():
        if re.fullmatch(r'@T\d+', gid):
            runs[int(gid[2:])] = ex[0][0]
    p = len(cmp['pre'])
    if cmp['kind'] == 'C21':
        for msg in sorted({n[1] for n in w.notes if n[0] == 'ctor'}):
            bad(viol, 'ctor', msg)
    (compare15 if cmp['kind'] == 'C15' else compare21)(j, cmp, {i: x[p:] for i, x in runs.items()}, viol)


def out(j, r):
    return r.kind if r.kind in ('ok', 'verr') else j.got(r)


def under(r, key, drop=False):
    """The failures reported under a key."""
    if r.report is None:
        return []
    x = [[pth[1:] if drop else pth, m] for pth, m in r.report if pth and pth[0] == W.canon_key(key)]
    return sorted(plain(e) for e in x)


def bad(viol, aspect, msg, r=None):
    viol.append({'aspect': aspect, 'msg': msg, 'g': None, 'op': None, 'k': None})


def compare15(j, cmp, runs, viol):
    a, u, c = runs[0], runs[1], runs[2]
    if a[0].kind != 'ok' or u[0].kind != 'ok':
        return          # the common starting point itself fails
    up, new = u[1], c[0]
    if out(j, up) != out(j, new):
        bad(viol, 'differ', 'construction ended with %s, the update with %s (%s / %s)'
            % (out(j, new), out(j, up), brief(new), brief(up)))
        return
    sets = []
    for i, (n, lk, _) in enumerate(cmp['over']):
        s, g = a[1 + 2 * i], a[2 + 2 * i]
        sets.append(s)
        if cmp['hard']:
            if out(j, s) != out(j, new):
                bad(viol, 'differ', 'construction ended with %s, the assignment of %s with %s' % (out(j, new), n, out(j, s)))
            continue
        x, y, z = under(new, lk), under(up, lk), sorted(plain(e) for e in s.report or ())
        if x != y:
            bad(viol, 'differ', 'field %s: construction reported %s, the update %s' % (n, x, y))
        if x != z or (s.kind == 'ok') != (not z):
            bad(viol, 'differ', 'field %s: construction reported %s, the assignment %s (%s)' % (n, x, z, out(j, s)))
        if s.kind not in ('ok', 'verr'):
            bad(viol, 'differ', 'the assignment of %s ended with %s' % (n, brief(s)))
        if new.kind == 'ok':
            vs = [plain(c[1 + i].value), plain(u[2 + i].value), plain(g.value)]
            if vs[0] != vs[1] or vs[0] != vs[2]:
                bad(viol, 'differ', 'field %s reads as %s when constructed, %s when updated, %s when assigned' % (n, *vs))
    if not cmp['hard'] and new.kind == 'verr':
        known = [W.canon_key(lk) for _, lk, _ in cmp['over']]
        x, y = (sorted(plain(e) for e in r.report if not e[0] or e[0][0] not in known) for r in (new, up))
        if x != y:
            bad(viol, 'differ', 'unknown keys: construction reported %s, the update %s' % (x, y))


def brief(r):
    return J.short(r.exc) if r.exc is not None else r.kind


def compare21(j, cmp, runs, viol):
    names = cmp['modes']
    d, dd = runs[0][0], runs[0][1]
    for i, n in enumerate(names):
        if n == 'direct':
            continue
        x = runs[i]
        if n == 'inst':
            if x[0].kind == 'ok' and x[1].kind == 'ok':
                if x[2].inst is not x[1].slots['s1']:
                    bad(viol, 'differ', 'an instance given to the Object field was not kept (construction)')
                if x[3].kind == 'ok' and x[4].kind == 'ok' and x[5].inst is not x[4].slots['s2']:
                    bad(viol, 'differ', 'an instance given to the Object field was not kept')
                if x[3].kind == 'ok' and x[4].kind != 'ok':
                    bad(viol, 'differ', 'an instance given to the Object field was rejected: %s' % brief(x[4]))
                if x[3].kind == 'ok' and x[4].kind == 'ok':
                    od, di = x[6], x[7]
                    if di.kind == od.kind == 'ok':
                        v = dict(od.value[1]).get(cmp['odk'])
                        if plain(v) != plain(di.value):
                            bad(viol, 'differ', 'the given instance dumps as %s, nested as %s' % (plain(di.value), plain(v)))
                    elif di.kind != od.kind and not cmp['hard']:
                        bad(viol, 'differ', 'dumping the given instance: %s, nested: %s' % (brief(di), brief(od)))
                    elif di.kind == 'verr' and sorted(plain(e) for e in di.report) != nested(od, [cmp['olk']]):
                        bad(viol, 'differ', 'dumping the given instance reported %s, nested %s'
                            % (sorted(plain(e) for e in di.report), nested(od, [cmp['olk']])))
            elif x[0].kind == 'ok':
                bad(viol, 'differ', 'an instance given to the Object field was rejected: %s' % brief(x[1]))
            continue
        if n in ('upd', 'set'):
            if x[0].kind != 'ok':
                continue
            x = x[1:]
        o, od, og = x[0], x[1], x[2]
        path = [cmp['qlk'], cmp['olk']] if n == 'deep' else [cmp['olk']]
        if out(j, d) not in ('ok', 'verr') or out(j, o) not in ('ok', 'verr'):
            if out(j, d) != out(j, o):
                bad(viol, 'differ', 'direct construction ended with %s, nested (%s) with %s' % (out(j, d), n, out(j, o)))
            continue
        want = sorted(plain(e) for e in d.report or ())
        got = nested(o, path)
        if want != got:
            bad(viol, 'differ', 'direct construction reported %s, nested (%s) %s' % (want, n, got))
            continue
        if d.kind != 'ok' or o.kind != 'ok':
            continue
        inst = og.inst
        if n == 'deep':
            inst = inst.get_value_for('o', None) if inst is not None else None
        w0 = d.state['s0']
        if not isinstance(inst, W.Schema):
            bad(viol, 'differ', 'nested (%s) the value is %s' % (n, W.desc(inst)))
            continue
        a = plain([w0[0], w0[1], w0[2]])
        b = plain([W.canon_inst(inst), W.canon(inst.context.state), inst.context.is_initialized()])
        if a != b:
            bad(viol, 'differ', 'direct construction gave %s, nested (%s) %s' % (a, n, b))
        if dd.kind == 'ok':
            if od.kind == 'ok':
                v = od.value
                if n == 'deep':
                    v = dict(v[1]).get('q')
                v = dict(v[1]).get(cmp['odk']) if v else None
                if plain(v) != plain(dd.value):
                    bad(viol, 'differ', 'the instance dumps as %s, nested (%s) as %s' % (plain(dd.value), n, plain(v)))
            elif nested(od, path):
                bad(viol, 'differ', 'dumping the instance succeeds, nested (%s) it fails: %s' % (n, brief(od)))
        elif dd.kind == 'verr':
            x, y = sorted(plain(e) for e in dd.report), nested(od, path)
            if x != y:
                bad(viol, 'differ', 'dumping the instance reported %s, nested (%s) %s' % (x, n, y))
        elif out(j, dd) != out(j, od):
            bad(viol, 'differ', 'dumping the instance ended with %s, nested (%s) with %s' % (out(j, dd), n, out(j, od)))


def nested(r, path):
    """The failures reported under a path, relative to it."""
    k = len(path)
    path = [W.canon_key(p) for p in path]
    return sorted(plain([p[k:], m]) for p, m in r.report or () if p[:k] == path)


class Engine:
    def __init__(self, pid):
        self.pid = pid

    def generate(self, seed):
        return gen15(seed) if self.pid == 'C15' else gen21(seed)

    def execute(self, scn):
        return runner.guarded(run, scn)
