"""The reference model: what oblate documents, as a small pure interpreter.

It executes the operations of one program (one thread's, or one re-entrant group's) on
plain data.  It knows nothing about threads, context variables or exceptions in flight:
by the properties, none of those can change what an operation does.
"""
import copy

UNSET = '<unset>'
BASE = ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'BaseException', 'MyBase', 'CancelledError')
MISUSE = '<TypeError of the library>'
ANY = '*'           # a message whose wording belongs to the library


class MF:
    __slots__ = ('spec', 'vals', 'name', 'owner')

    def __init__(self, spec, vals, name, owner):
        self.spec = spec
        self.vals = vals
        self.name = name
        self.owner = owner

    @property
    def lk(self):
        return self.spec.get('lk', self.name)

    @property
    def dk(self):
        return self.spec.get('dk', self.name)

    @property
    def required(self):
        return self.spec.get('req', True) is not False and self.spec.get('dflt') is None


class MC:
    """A schema class."""

    def __init__(self, name):
        self.name = name
        self.fields = {}
        self.config = {}
        self.pre = None
        self.post = False


def flatten(scn):
    out = {}
    for spec in scn['classes']:
        c = MC(spec['name'])
        for b in spec.get('bases', ()):
            p = out[b]
            c.fields.update(p.fields)
            c.config = dict(p.config)
            c.pre = p.pre
            c.post = p.post
        for fs in spec['fields']:
            vals = list(fs.get('vals', ()))
            if fs.get('copy_of'):
                src = out[fs['copy_of'][0]].fields[fs['copy_of'][1]]
                base = dict(src.spec)
                for k in ('lk', 'dk'):
                    base.pop(k, None)
                    if k in src.spec:
                        base[k] = src.spec[k]
                base.update({k: v for k, v in fs.items() if k not in ('copy_of', 'vals')})
                c.fields[fs['n']] = MF(base, list(src.vals) + vals, fs['n'], src.owner)
            else:
                order = ([v for v in vals if v['via'] == 'init'] + [v for v in vals if v['via'] == 'add']
                         + [v for v in vals if v['via'] in ('deco', 'decostr')])
                c.fields[fs['n']] = MF(fs, order, fs['n'], spec['name'] + '.' + fs['n'])
        for x in spec.get('xvals', ()):
            f = c.fields[x['f']]
            c.fields[x['f']] = MF(f.spec, f.vals + [x['v']], f.name, f.owner)
        if spec.get('config') is not None:
            c.config = dict(spec['config'])
        c.pre = spec.get('pre') or c.pre
        c.post = bool(spec.get('post')) or c.post
        out[spec['name']] = c
    return out


class MI:
    """A schema instance."""
    __slots__ = ('cls', 'vals', 'state', 'shared')

    def __init__(self, cls):
        self.cls = cls
        self.vals = {}
        self.state = None
        self.shared = False         # the state object is also that of other instances

    def canon(self):
        return ['I', self.cls.name, {n: (self.vals[n].canon() if n in self.vals else UNSET)
                                     for n in self.cls.fields}]


class MV:
    """A stored value: canonical form and the behaviours attached to it."""
    __slots__ = ('c', 'b')

    def __init__(self, c, b=None):
        self.c = c
        self.b = b or {}

    def canon(self):
        return self.c


class MN:
    """A stored nested instance."""
    __slots__ = ('inst',)
    b = {}

    def __init__(self, inst):
        self.inst = inst

    def canon(self):
        return self.inst.canon()


class Out:
    def __init__(self):
        self.report = []        # dicts: path, tok, cat, state, raw, mu
        self.events = []        # expected callback invocations
        self.optional = []      # invocations that may or may not happen
        self.hard = []          # tokens of hard faults met
        self.upper = False      # events are an upper bound only
        self.reads = {}
        self.frozen = None      # list of acceptable entities


class Expect:
    def __init__(self, kind):
        self.kind = kind
        self.value = None
        self.out = None
        self.toks = ()
        self.entities = ()
        self.alts = ()
        self.name = None


class Stop(Exception):
    """A value's processing was cut short by a hard fault."""


def canon_plain(x):
    if x is None:
        return None
    if isinstance(x, bool):
        return ['bool', x]
    if isinstance(x, int):
        return ['int', x]
    if isinstance(x, float):
        return ['float', repr(x)]
    if isinstance(x, str):
        return ['str', x]
    if isinstance(x, list):
        return ['list', [canon_plain(i) for i in x]]
    if isinstance(x, dict):
        import json
        if '$t' in x:
            return ['tuple', [canon_plain(i) for i in x['$t']]]
        if '$o' in x:
            return ['stobj', canon_plain(x['$o'])]
        if '$set' in x:
            s = {json.dumps(canon_plain(i), sort_keys=True): canon_plain(i) for i in x['$set']}
            return ['set', [s[k] for k in sorted(s)]]
        items = x['$d'] if '$d' in x else list(x.items())
        return ['dict', sorted(([canon_key(k), canon_plain(v)] for k, v in items),
                               key=lambda c: json.dumps(c, sort_keys=True))]
    raise TypeError(x)


def canon_key(k):
    if isinstance(k, str):
        return k
    if isinstance(k, dict) and '$t' in k:
        return ['key', repr(tuple(k['$t']))]
    return ['key', repr(k)]


def raw_canon(v):
    """Canonical form of a raw value spec as the callbacks see it."""
    if isinstance(v, dict):
        if '$i' in v:
            return ANY
        if v.get('m') == 'plain':
            return ANY
        if '$v' in v and v['$v'] == 'plain':
            return canon_plain(v['x'])
        return ['u', v['u']]
    return canon_plain(v)


class Model:
    def __init__(self, scn):
        self.scn = scn
        self.classes = flatten(scn)
        self.flex = set(scn.get('flex', ()))

    # -- messages -----------------------------------------------------------------

    def fmt(self, mf, code):
        mode = mf.spec.get('fmt')
        if mode in ('str', 'err'):
            return 'fmt:' + code, ('fs:' + code if mode == 'err' else None)
        if mode == 'partial' and code in ('none_disallowed', 'field_required'):
            return 'fmt:' + code, None
        return None

    def err(self, out, path, cat, mf, raw, mu, tok=ANY, state=None, code=None, n=1):
        if code is not None and mf is not None:
            if mf.spec.get('fmt') == 'bad':
                out.hard.append(MISUSE)
                out.upper = True
            f = self.fmt(mf, code)
            if f is not None:
                tok, state = f
                n = 1
        for _ in range(n):
            out.report.append({'path': path, 'tok': tok, 'cat': cat, 'state': state,
                               'raw': raw, 'mu': mu, 'f': mf.name if mf else None})

    # -- behaviours ---------------------------------------------------------------

    def acts(self, acts, out, path, mf, raw, mu, inst, mode, busy=(), cls=None, in_or=False):
        """Runs the actions of a stage; returns true if a soft failure was reported."""
        for a in acts or ():
            k = a['a']
            if k == 'raise':
                if not a.get('soft'):
                    out.hard.append(a['tok'])
                    out.upper = True
                    raise Stop()
                if a['e'] == 'Reuse':
                    self.err(out, path[:-1] + ['aux'], 'reuse', None, raw, mu, a['tok'])
                elif a['e'] in ('FieldError', 'MyFE'):
                    msgs = a['msgs'][:1] if a.get('mt') == 'str' else a['msgs']
                    if a.get('mt') == 'set':
                        msgs = list(dict.fromkeys(msgs))
                    for m in msgs:
                        self.err(out, path, 'value', None, raw, mu, str(m), a.get('state'))
                        out.report[-1]['f'] = mf.name
                elif a.get('empty') and not in_or:
                    # (inside Or() the field is not asked to format anything)
                    self.err(out, path, 'value', mf, raw, mu, code='validation_failed')
                else:
                    self.err(out, path, 'value', mf, raw, mu, a['tok'])
                return True
            elif k == 'read':
                f = a['f']
                if inst is None or f in busy or f not in inst.cls.fields:
                    out.reads[a['id']] = ANY
                else:
                    out.reads[a['id']] = inst.vals[f].canon() if f in inst.vals else UNSET
            elif k in ('readattr', 'readdump'):
                f = a['f']
                if inst is None or f in busy:
                    out.reads[a['id']] = ANY
                else:
                    out.reads[a['id']] = 'value' if f in inst.vals else 'notset'
            elif k == 'readrepr':
                out.reads[a['id']] = 'ok'
            elif k == 'nonmap':
                out.hard.append(MISUSE)
                out.upper = True
                raise Stop()
            elif k == 'selfset':
                self.selfset(a, out, inst, path)
            elif k == 'selfupd':
                self.selfupd(a, out, inst)
            elif k == 'copyset':
                self.copyset(a, out, cls or inst.cls)
        return False

    def selfset(self, a, out, inst, path):
        f = inst.cls.fields[a['f']]
        if inst.cls.config.get('frozen') or f.spec.get('frozen'):
            out.reads[a['id']] = 'frozen'
            return
        sub = Out()
        v = self.load(f, a['v'], {}, 'upd', [f.lk], sub, None, inst, eager=True)
        out.events += sub.events
        out.optional += sub.optional
        if sub.report:
            out.reads[a['id']] = 'verr'
        else:
            inst.vals[f.name] = v
            out.reads[a['id']] = 'ok'

    def selfupd(self, a, out, inst):
        if inst.cls.config.get('frozen'):
            out.reads[a['id']] = 'frozen'
            return
        sub = Out()
        old = dict(inst.vals)
        self.update(inst, a['m'], {}, False, sub)
        out.events += sub.events
        out.optional += sub.optional
        if sub.report:
            inst.vals = old
        out.reads[a['id']] = 'verr' if sub.report else 'ok'

    def copyset(self, a, out, cls):
        """An assignment to a copy made just for it."""
        f = cls.fields[a['f']]
        if cls.config.get('frozen') or f.spec.get('frozen'):
            out.reads[a['id']] = 'frozen'
            return
        sub = Out()
        self.load(f, a['v'], {}, 'upd', [f.lk], sub, None, None, eager=True)
        out.events += sub.events
        out.optional += sub.optional
        out.reads[a['id']] = 'verr' if sub.report else 'ok'

    def beh(self, v):
        return (v.get('b') or {}) if isinstance(v, dict) else {}

    # -- loading ------------------------------------------------------------------

    def run_val(self, vs, mf, v, final, out, path, mu, inst, mode, raw, busy=(), in_or=False):
        """One validator on one value.  True if it rejects."""
        vid = vs['id']
        rc = raw_canon(v)
        kind = vs['kind']
        try:
            if kind in ('fn', 'obj'):
                e = ('raw' if raw else 'val', vid, rc if raw else final.canon())
                if vid not in self.flex:
                    out.events.append(e)
                if v is None:
                    a = vs.get('on_none')
                    return self.acts([a] if a else (), out, path, mf, rc, mu, inst, mode, busy,
                                     None, in_or)
                return self.acts(self.beh(v).get(('raw:' if raw else 'val:') + vid), out, path, mf,
                                 rc, mu, inst, mode, busy, None, in_or)
            if kind == 'or':
                passed = False
                for s in vs['subs']:
                    sub = Out()
                    bad = self.run_val(s, mf, v, final, sub, path, mu, inst, mode, raw, busy, True)
                    out.optional += sub.events + sub.optional
                    out.reads.update(sub.reads)
                    if sub.hard and not passed:
                        out.hard += sub.hard
                        out.upper = True
                        return True
                    if not bad:
                        passed = True
                if not passed:
                    self.err(out, path, 'value', None, rc, mu)
                    out.report[-1]['f'] = mf.name
                return not passed
            if isinstance(v, dict) and vid in v.get('vf', ()):
                self.err(out, path, 'value', None, rc, mu)
                out.report[-1]['f'] = mf.name
                return True
            return False
        except Stop:
            return True

    def load(self, mf, v, env, mode, path, out, mu, inst, eager, lazy=None, busy=()):
        """Loads one value; returns the stored value or None if it is rejected."""
        raws = [x for x in mf.vals if x.get('raw')]
        vals = [x for x in mf.vals if not x.get('raw')]
        rc = raw_canon(v)
        bad = False
        if eager:
            for x in raws:
                bad |= self.run_val(x, mf, v, None, out, path, mu, inst, mode, True, busy)
        else:
            for x in raws:
                lazy.append((x, mf, v, None, path, True))
        if v is None:
            if not mf.spec.get('none'):
                self.err(out, path, 'value', mf, rc, mu, code='none_disallowed')
                return None
            return None if bad else MV(None)
        out.events.append(('load', mf.name, rc))
        final = None
        try:
            if not self.acts(self.beh(v).get('load'), out, path, mf, rc, mu, inst, mode, busy):
                final = self.convert(mf, v, env, path, out, rc, mu, inst, mode)
        except Stop:
            pass
        if final is None:
            return None
        if eager:
            for x in vals:
                bad |= self.run_val(x, mf, v, final, out, path, mu, inst, mode, False, busy)
            return None if bad else final
        for x in vals:
            lazy.append((x, mf, v, final, path, False))
        return final

    def convert(self, mf, v, env, path, out, rc, mu, inst=None, mode=None):
        kind = mf.spec['kind']
        if kind == 'sim':
            if isinstance(v, dict) and '$s' in v:
                return MV(['L', v['u']], self.beh(v))
            if isinstance(v, dict):
                return MV(['L', canon_plain(v['x'])], self.beh(v))
            return MV(['L', canon_plain(v)])
        if kind == 'obj':
            if isinstance(v, dict) and 'i' in v:
                ik = mf.spec.get('ik') or {}
                n = len(out.report)
                i = self.construct(mf.spec['cls'], v, env, path, out, ik.get('ignore_extra'), ik.get('state'))
                if len(out.report) > n or i is None:
                    return None
                i.shared = 'state' in ik
                return MN(i)
            if isinstance(v, dict) and '$i' in v:
                i = env.get(v['$i'])
                if i is None:
                    # the harness passes an empty mapping instead
                    return self.convert(mf, {'m': 'plain', 'i': []}, env, path, out, rc, mu)
                if not self.is_sub(i.cls.name, mf.spec['cls']):
                    self.err(out, path, 'value', mf, rc, mu, code='invalid_datatype')
                    return None
                return MN(i)
            self.err(out, path, 'value', mf, rc, mu, code='invalid_datatype')
            return None
        if isinstance(v, dict) and v.get('$v') == 'co':
            acts = self.beh(v).get('co') or ()
            if kind in ('int', 'float') and any(a['a'] == 'raise' and a['e'] not in BASE for a in acts):
                # whatever goes wrong while converting to a number means it cannot be converted
                self.err(out, path, 'value', mf, rc, mu, code='coercion_failed')
                return None
            if self.acts(acts, out, path, mf, rc, mu, inst, mode):
                return None
        if isinstance(v, dict) and v.get('ok'):
            return MV(v['f'], self.beh(v) if v.get('same') else None)
        if isinstance(v, dict) and 'ok' in v:
            self.err(out, path, 'value', mf, rc, mu, code=v['code'], n=v.get('ne', 1))
            return None
        if kind == 'any':
            return MV(canon_plain(v))
        raise TypeError('unlabelled value %r for %s' % (v, kind))

    def is_sub(self, a, b):
        spec = {s['name']: s for s in self.scn['classes']}
        todo = [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            todo += spec[x].get('bases', ())
        return False

    def items(self, cls, m, mode):
        items = m['i']
        if mode == 'new' and cls.pre == 'drop' and m['m'] == 'dict':
            if any(x[0] == '__empty__' for x in items):
                return []
            items = [x for x in items if x[0] != '__drop__']
        return items

    def map_stage(self, m, st, out, cls=None, inst=None):
        try:
            self.acts(self.beh(m).get(st), out, None, None, None, None, inst, None, (), cls)
        except Stop:
            pass

    def construct(self, cname, m, env, path, out, ie, state):
        cls = self.classes[cname]
        inst = MI(cls)
        inst.state = copy.deepcopy(state)
        mu = m.get('u')
        if cls.pre:
            out.events.append(('pre', mu, cname))
            self.map_stage(m, 'pre', out, cls)
        if ie is None:
            ie = bool(cls.config.get('ignore_extra'))
        by_key = {f.lk: f for f in cls.fields.values()}
        lazy = []
        n0 = len(out.report)
        h0 = len(out.hard)
        if m['m'] == 'spy':
            for st in self.beh(m):
                if st.startswith('items:') and (st == 'items:end' or int(st[6:]) < len(m['i'])):
                    self.map_stage(m, st, out)
        supplied = set()
        for k, v in self.items(cls, m, 'new'):
            ck = canon_key(k)
            f = by_key.get(k) if isinstance(k, str) else None
            if f is None:
                if not ie:
                    self.err(out, path + [ck], 'unknown', None, None, mu)
                continue
            supplied.add(f.name)
            x = self.load(f, v, env, 'new', path + [ck], out, mu, inst, False, lazy,
                          busy=set(cls.fields))
            if x is not None:
                inst.vals[f.name] = x
        dflts = []
        for f in cls.fields.values():
            if f.name in supplied:
                continue
            if f.required:
                self.err(out, path + [f.lk], 'required', f, None, mu, code='field_required')
            d = f.spec.get('dflt')
            if d is not None:
                if d.get('fn'):
                    dflts.append(('def', f.owner))
                    try:
                        self.acts(self.beh(m).get('def:' + f.name) if cls.pre and m.get('u') else (), out, path, f,
                                  None, mu, inst, 'new')
                    except Stop:
                        pass
                    inst.vals[f.name] = MV(None if d.get('ret') == 'none' else ['dv', f.owner])
                else:
                    inst.vals[f.name] = MV(canon_plain(d['val']))
        # fields whose load failed may or may not be readable meanwhile
        busy = {f for f in cls.fields if f not in inst.vals or f not in supplied}
        for x, f, v, final, p, raw in lazy:
            self.run_val(x, f, v, final, out, p, mu, inst, 'new', raw, set(cls.fields) if raw else busy)
        failed = len(out.report) > n0
        (out.optional if failed or out.hard else out.events).extend(dflts)
        if failed or len(out.hard) > h0:
            return None
        if cls.post:
            out.events.append(('post', cname))
            if cls.pre:
                self.map_stage(m, 'post', out, cls, inst)
        return inst

    # -- operations ---------------------------------------------------------------

    def verdict(self, out, value=None):
        if out.frozen:
            e = Expect('frozen')
            e.entities = out.frozen
            e.toks = out.hard
            out.upper = True
        elif out.hard:
            e = Expect('hard')
            e.toks = out.hard
        elif out.report:
            e = Expect('verr')
        else:
            e = Expect('ok')
            e.value = value
        e.out = out
        return e

    def step(self, op, env):
        """Executes one operation on env (slot -> MI or None); returns an Expect."""
        k = op['op']
        out = Out()
        if k == 'new':
            i = self.construct(op['c'], op['m'], env, [], out, op.get('ie'), op.get('state'))
            e = self.verdict(out)
            env[op['to']] = i if e.kind == 'ok' else None
            return e
        if k == 'bad' and op['x'] == 'new':
            e = Expect('misuse')
            e.out = out
            return e
        inst = env.get(op['s'])
        if inst is None:
            return Expect('skip')
        if k == 'bad':
            e = Expect('frozen' if op['x'] == 'upd' and inst.cls.config.get('frozen') else 'misuse')
            e.entities = [['schema']]
            e.out = out
            return e
        cls = inst.cls
        if k == 'set':
            f = cls.fields[op['f']]
            if cls.config.get('frozen'):
                out.frozen = [['schema']]
                return self.verdict(out)
            if f.spec.get('frozen'):
                out.frozen = [['field', f.name]]
                return self.verdict(out)
            old = dict(inst.vals)
            x = self.load(f, op['v'], env, 'upd', [f.lk], out, None, inst, True,
                          busy={f.name} if self.nested_self(op['v']) else ())
            e = self.verdict(out)
            if e.kind == 'ok':
                inst.vals[f.name] = x
            else:
                inst.vals = {n: v for n, v in old.items() if n == f.name} | \
                            {n: v for n, v in inst.vals.items() if n != f.name}
            return e
        if k == 'upd':
            if cls.config.get('frozen'):
                out.frozen = [['schema']]
                return self.verdict(out)
            ie = op.get('ie')
            if ie is None:
                ie = bool(cls.config.get('ignore_extra'))
            old = dict(inst.vals)
            frozen = self.update(inst, op['m'], env, ie, out)
            out.frozen = frozen or None
            e = self.verdict(out)
            if e.kind != 'ok':
                inst.vals = old
            return e
        if k == 'get':
            n = op['n']
            via = op.get('via', 'attr')
            f = cls.fields.get(n)
            if f is None and via != 'attr':
                for g in cls.fields.values():
                    if g.lk == n:
                        f = g
            if f is None:
                e = Expect('rte')
            elif f.name in inst.vals:
                e = Expect('ok')
                e.value = inst.vals[f.name].canon()
                if 'to' in op and isinstance(inst.vals[f.name], MN):
                    env[op['to']] = inst.vals[f.name].inst
            elif via == 'gvd':
                e = Expect('ok')
                e.value = UNSET
            else:
                e = Expect('notset')
                e.name = f.name
            e.out = out
            return e
        if k == 'dump':
            names = [n for n in cls.fields
                     if (op.get('inc') is None or n in op['inc']) and (op.get('exc') is None or n not in op['exc'])]
            d = self.dump(inst, names, out, [], op.get('h') or {})
            e = self.verdict(out, d)
            return e
        if k == 'copy':
            bang = [a['tok'] for a in op.get('sx') or () if a['a'] == 'raise']
            if bang and isinstance(inst.state, dict) and '$o' in inst.state:
                out.hard += bang
                env[op['to']] = None
                return self.verdict(out)
            i = MI(cls)
            i.vals = dict(inst.vals)
            i.state = copy.copy(inst.state)
            if isinstance(i.state, dict) and '$o' in i.state:
                i.state['$o'] = dict(i.state['$o'])
            env[op['to']] = i
            e = Expect('ok')
            e.out = out
            return e
        if k == 'repr':
            if has_loaded(inst.canon()):
                try:
                    self.acts(op.get('rx'), out, [], None, None, None, inst, 'repr')
                except Stop:
                    pass
            return self.verdict(out)
        if k == 'mut':
            if inst.shared:
                return Expect('skip')
            st = inst.state
            if isinstance(st, dict) and '$o' in st:
                st['$o'][op['k']] = op['x']
            elif is_dict(st):
                st[op['k']] = op['x']
            elif isinstance(st, list):
                st.append(op['x'])
            elif op.get('replace'):
                inst.state = op['x']
            e = Expect('ok')
            e.out = out
            return e
        raise TypeError(k)

    def update(self, inst, m, env, ie, out):
        by_key = {f.lk: f for f in inst.cls.fields.values()}
        if m['m'] == 'spy':
            for st in self.beh(m):
                if st.startswith('items:') and (st == 'items:end' or int(st[6:]) < len(m['i'])):
                    self.map_stage(m, st, out)
        mu = m.get('u')
        frozen = []
        named = set()
        for kk, v in m['i']:
            f = by_key.get(kk) if isinstance(kk, str) else None
            if f is not None:
                named.add(f.name)
        for kk, v in m['i']:
            ck = canon_key(kk)
            f = by_key.get(kk) if isinstance(kk, str) else None
            if f is None:
                if not ie:
                    self.err(out, [ck], 'unknown', None, None, mu)
                continue
            if f.spec.get('frozen'):
                frozen.append(['field', f.name])
                continue
            x = self.load(f, v, env, 'upd', [ck], out, mu, inst, True, busy=named)
            if x is not None:
                inst.vals[f.name] = x
        return frozen

    def nested_self(self, v):
        return True

    def dump(self, inst, names, out, path, hooks):
        items = []
        for n in names:
            if n not in inst.vals:
                continue
            f = inst.cls.fields[n]
            v = inst.vals[n]
            c = v.canon()
            p = path + [f.lk]
            out.events.append(('dump', n, c))
            try:
                if n in hooks and self.acts(hooks[n], out, p, f, c, None, inst, 'dump'):
                    continue
                if self.acts(v.b.get('dump'), out, p, f, c, None, inst, 'dump'):
                    continue
            except Stop:
                continue
            if isinstance(v, MN):
                r0 = len(out.report)
                d = self.dump(v.inst, list(v.inst.cls.fields), out, p, {})
                if len(out.report) > r0:
                    continue
            elif f.spec['kind'] == 'sim':
                d = ['D', c]
            else:
                d = c
            if f.spec['kind'] == 'sim' and c is None:
                d = ['D', None]
            items.append([f.dk, d])
        import json
        return ['dict', sorted(items, key=lambda x: json.dumps(x, sort_keys=True))]


def has_loaded(c):
    """Whether a value of a simulated field is among those an instance holds, at any depth of instances."""
    return any(isinstance(x, list) and x and (x[0] == 'L' or x[0] == 'I' and has_loaded(x)) for x in c[2].values())


def is_dict(x):
    return isinstance(x, dict) and '$t' not in x and '$set' not in x and '$o' not in x
