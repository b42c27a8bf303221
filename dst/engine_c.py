"""Engine C (C11): programs that define, subclass and copy - also unsuccessfully, also from
inside the callbacks and next to the operations of the schemas they build on.

After every step every schema defined so far is used: its keys, fields, validators, dump
keys and defaults must be those of a small model that knows only Python's method
resolution order.
"""
import json
import random
import typing
import warnings
import zlib

import seams
oblate = seams.load()
import simsched
import runner
from oblate import fields as F, validate as V

STEP_CAP = 3_000_000
world = None


class Boom(Exception):
    pass


class Tok:
    """A value that may do something when it is loaded."""
    def __init__(self, t, act=None):
        self.t = t
        self.act = act

    def __repr__(self):
        return self.t


class CF(F.Field):
    def value_load(self, value, context):
        simsched.point('load')
        if isinstance(value, Tok) and value.act is not None:
            act, value.act = value.act, None
            act()
        return value

    def value_dump(self, value, context):
        simsched.point('dump')
        return value


class CopyBoom(CF):
    """copy() works until it is armed."""
    def copy(self):
        if world is not None and world.me() in world.armed:
            raise Boom('copy')
        return super().copy()


class AddBoom(CF):
    def add_validator(self, validator, **kw):
        super().add_validator(validator, **kw)
        if world is not None and world.me() in world.armed:
            raise Boom('add')


class SetNameBoom:
    def __set_name__(self, owner, name):
        raise Boom('set_name')


KINDS = {'cf': CF, 'any': F.Any, 'cb': CopyBoom, 'ab': AddBoom}


# Fields that refuse values, and say why.

def typed(base, *args, **opts):
    class TF(base):
        def __init__(self, **kw):
            super().__init__(*args, **opts, **kw)

        def value_load(self, value, context):
            simsched.point('load')
            return super().value_load(value, context)

        def format_error(self, code, context):
            simsched.point('fmt')
            seen = world.codes.get(world.me())
            if seen is not None:
                seen.append(str(code))
    TF.__name__ = base.__name__
    return TF


class TDict(typing.TypedDict):
    a: int


# kind: (class, a value it accepts)
TYPED = {
    'int': (typed(F.Integer), 11), 'intc': (typed(F.Integer, strict=False), 12), 'str': (typed(F.String), 'text'),
    'float': (typed(F.Float), 1.5), 'bool': (typed(F.Boolean), True), 'list': (typed(F.List), [1, 'a']),
    'listi': (typed(F.List, int), [1, 2]), 'dict': (typed(F.Dict), {'x': 1}), 'dictsi': (typed(F.Dict, str, int), {'k': 2}),
    'set': (typed(F.Set), {3}), 'sets': (typed(F.Set, str), {'m'}), 'td': (typed(F.TypedDict, TDict), {'a': 4}),
    'lit': (typed(F.Literal, 'p', 5), 'p'), 'un': (typed(F.Union, int, str), 6),
    'tx': (typed(F.TypeExpr, typing.Optional[typing.List[int]]), [7]),
}
KINDS.update((k, v[0]) for k, v in TYPED.items())
VALUES = [None, 8, '8', 'x', 'p', True, 2.5, [1], ['a'], {'a': 1}, {'a': 'b'}, {1: 1}, {1}, {'a'}, object]
REF = {}        # what a field of a kind makes of the values: decided before anything else is defined


def reference():
    """Once for a run, and with nothing else around."""
    global REF
    REF = {}
    for k in TYPED:
        for none in (False, True):
            cls = type(oblate.Schema)('Ref', (oblate.Schema,), {'__module__': __name__, 'f': KINDS[k](none=none)})
            REF[k, none] = [attempt(lambda: cls({'f': v}), lambda x: x.get_value_for('f')) for v in VALUES]
    world.codes.clear()


def attempt(fn, get):
    me = world.me()
    saved = world.codes.get(me)
    world.codes[me] = []
    try:
        out = fn()
        return 'accepted as %r' % (get(out),)
    except oblate.ValidationError:
        return 'refused: %s' % world.codes[me]
    finally:
        world.codes[me] = saved


class ObjVal(V.Validator):
    def __init__(self, w, vid):
        self.w, self.vid = w, vid

    def validate(self, value, context):
        self.w.ran(self.vid, context.schema, context)


class RawObjVal(V.Validator, raw=True):
    def __init__(self, w, vid):
        self.w, self.vid = w, vid

    def validate(self, value, context):
        self.w.ran(self.vid, context.schema, context)


class FM:
    """What the model knows of a field."""
    def __init__(self, name, spec, vals):
        self.name = name
        self.lk = spec.get('lk')
        self.dk = spec.get('dk')
        self.req = spec.get('req', True) and 'dflt' not in spec
        self.dflt = spec.get('dflt')
        self.kind = spec.get('k', 'cf')
        self.none = spec.get('none', False)
        self.fz = spec.get('fz', False)
        self.vals = list(vals)          # [id, raw]

    def clone(self, name):
        x = FM(name, {}, self.vals)
        x.lk, x.dk, x.req, x.dflt = self.lk, self.dk, self.req, self.dflt
        x.kind, x.none, x.fz = self.kind, self.none, self.fz
        return x

    def good(self, c):
        """A value for it, and how the value looks."""
        if self.kind in TYPED:
            v = TYPED[self.kind][1]
            return v, repr(v)
        t = '%s.%s' % (c, self.name)
        return Tok(t), t

    def load_key(self):
        return self.lk or self.name

    def dump_key(self):
        return self.dk or self.name

    def ids(self, raw):
        return [i for i, r in self.vals if r == raw]


class World:
    def __init__(self, scn):
        self.scn = scn
        self.armed = set()       # threads in which fields fail
        self.classes = {}
        self.own = {'Schema': {}}       # class -> name -> FM
        self.dummy = {'Schema': object}
        self.config = {'Schema': {}}
        self.models = {}                # class -> name -> FM, effective
        self.copies = {}                # name -> [field, FM, flex]
        self.vobj = {}
        self.vinfo = {}
        self.rec = {}
        self.viol = []
        self.faults = {}
        self.ops = {}
        self.universe = set(scn['universe'])
        self.fnames = {}
        self.codes = {}

    def count(self, d, k):
        d[k] = d.get(k, 0) + 1

    def me(self):
        s = simsched.current
        return s.cur.tid if s is not None else -1

    def bad(self, aspect, msg):
        if len(self.viol) < 20:
            self.viol.append(runner.bug(aspect, msg))

    # validators
    def ran(self, vid, schema, context):
        simsched.point('val')
        self.rec.setdefault(self.me(), []).append((vid, self.fnames.get(id(context.field))))

    def val(self, v):
        vid = v['id']
        if vid not in self.vobj:
            raw = bool(v.get('raw'))
            if v.get('kind') == 'obj':
                self.vobj[vid] = (RawObjVal if raw else ObjVal)(self, vid)
            else:
                def fn(schema, value, context, vid=vid):
                    self.ran(vid, schema, context)
                fn.__name__ = vid
                self.vobj[vid] = fn
            self.vinfo[vid] = raw
        return self.vobj[vid]

    def add(self, field, v):
        o = self.val(v)
        raw = self.vinfo[v['id']]
        if isinstance(o, V.Validator):
            field.add_validator(o)
        else:
            field.add_validator(o, raw=raw)
        return [v['id'], raw]

    # steps
    def step(self, st):
        k = st['d']
        s = simsched.current
        simsched.point('step')
        try:
            out = getattr(self, 'do_' + k)(st)
        finally:
            if s is not None and st.get('intr'):
                s.cur.intr = None
        simsched.point('done')
        self.count(self.ops, k + (':' + out if out else ''))

    def arm(self, st):
        s = simsched.current
        if s is not None and st.get('intr'):
            s.cur.intr, s.cur.intr_fired = st['intr'], False

    def fired(self, st):
        s = simsched.current
        f = s is not None and st.get('intr') and bool(s.cur.intr_fired)
        if s is not None and st.get('intr'):
            s.cur.intr = None
        if f:
            self.count(self.faults, 'interrupt@line')
        return f

    def do_copy(self, st):
        c, n = st['of']
        if c == 'copy':
            if not self.mine(n):
                return 'skip'
            src, fm = self.copies[n][:2]
        else:
            if c not in self.classes or n not in self.models[c]:
                return 'skip'
            src, fm = getattr(self.classes[c], n), self.models[c][n]
        self.arm(st)
        try:
            f = src.copy()
        except KeyboardInterrupt:
            if not self.fired(st):
                raise
            return 'interrupted'
        self.fired(st)
        self.copies[st['to']] = [f, fm.clone(None), False, self.me() if self.me() >= 0 else None]

    def mine(self, n):
        """Whether the copy can be used by this thread: it is nobody else's."""
        e = self.copies.get(n)
        if e is None or e[2]:
            return False
        if self.me() >= 0:
            if e[3] is None:
                e[3] = self.me()
            return e[3] == self.me()
        return True

    def target(self, t):
        if t[0] == 'copy':
            return self.copies[t[1]] if self.mine(t[1]) else None
        c, n = t
        if c not in self.classes or n not in self.own[c]:
            return None
        if any(o != c and issubclass(self.classes[o], self.classes[c]) for o in self.classes):
            return None         # its subclasses use the same field
        return [getattr(self.classes[c], n), self.own[c][n], False]

    def do_change(self, st):
        t = self.target(st['t'])
        if t is None or t[2]:
            return 'skip'
        field, fm = t[:2]
        how = st['how']
        if 'v' in st:
            self.val(st['v'])
        self.arm(st)
        try:
            if how == 'add':
                fm.vals.append(self.add(field, st['v']))
            elif how == 'remove':
                vid = st['v']['id']
                o = self.val(st['v'])
                raw = self.vinfo[vid]
                field.remove_validator(o, raw=raw)
                for x in fm.vals:
                    if x == [vid, raw]:
                        fm.vals.remove(x)
                        break
            else:
                raw = st.get('raw')
                if raw is None:
                    field.clear_validators()
                    fm.vals[:] = []
                else:
                    field.clear_validators(raw=raw)
                    fm.vals[:] = [x for x in fm.vals if x[1] != raw]
        except KeyboardInterrupt:
            if not self.fired(st):
                raise
            if st['t'][0] == 'copy':
                t[2] = True
                return 'interrupted'
            raise
        self.fired(st)

    def do_class(self, st):
        name = st['name']
        bases = [b for b in st['bases'] if b in self.classes]
        if len(bases) != len(st['bases']) or name in self.classes:
            return 'skip'
        try:
            dummy = type(name, tuple(self.dummy[b] for b in bases) or (object,), {})
        except TypeError:
            return 'skip'       # no consistent method resolution order
        names = {v: k for k, v in self.dummy.items()}
        names[dummy] = name
        inherited = {}
        for c in reversed(dummy.__mro__[1:]):
            inherited.update(self.own.get(names.get(c), {}))
        ns, own, used = {'__module__': __name__}, {}, []
        for f in st['fields']:
            n = f['n']
            if 'copy' in f:
                if not self.mine(f['copy']):
                    return 'skip'
                e = self.copies[f['copy']]
                ns[n], own[n] = e[0], e[1].clone(n)
                used.append(f['copy'])
            else:
                kw = {}
                for a, b in (('lk', 'load_key'), ('dk', 'dump_key'), ('req', 'required'), ('dflt', 'default'), ('none', 'none'), ('fz', 'frozen')):
                    if a in f:
                        kw[b] = f[a]
                field = KINDS[f.get('k', 'cf')](**kw)
                ns[n] = field
                own[n] = FM(n, f, [self.add(field, v) for v in f.get('vals', ())])
        for v in st.get('deco', ()):
            if v['f'] not in own:
                if v['f'] not in inherited:
                    return 'skip'
                own[v['f']] = inherited[v['f']].clone(v['f'])

            def fn(schema, value, context, vid=v['id']):
                self.ran(vid, schema, context)
            fn.__name__ = v['id']
            raw = bool(v.get('raw'))
            ns[v['id']] = V.field(ns[v['f']] if v.get('obj') and v['f'] in ns else v['f'], raw=raw)(fn)
            own[v['f']].vals.append([v['id'], raw])
        eff = dict(inherited)
        eff.update(own)
        if len({f.load_key() for f in eff.values()}) != len(eff) or len({f.dump_key() for f in eff.values()}) != len(eff):
            return 'skip'       # two fields with one key
        config = {}
        for b in bases:
            config.update(self.config[b])
        if st.get('config') is not None:
            config = dict(st['config'])
            ns['Config'] = type('Config', (oblate.SchemaConfig,), dict(st['config']))
        elif len({json.dumps(self.config[b], sort_keys=True) for b in bases}) > 1:
            return 'skip'       # which one applies is not specified
        fail = st.get('fail')
        armed = False
        if fail:
            k = fail['k']
            at = list(ns.items())
            if k == 'target':
                def stray(schema, value, context):
                    pass
                x = V.field('no_such_field')(stray)
            elif k == 'bound':
                c, n = fail['of']
                if c not in self.classes or n not in self.models[c]:
                    return 'skip'
                x = getattr(self.classes[c], n)
            elif k == 'setname':
                x = SetNameBoom()
            else:
                x = None
                armed = True
                kinds = {f['n']: f.get('k') for f in st['fields']}
                hit = any((k == 'add' and isinstance(ns.get(v['f']) or self.inherited(bases, v['f']), AddBoom)) or
                          (k == 'copy' and v['f'] not in ns and isinstance(self.inherited(bases, v['f']), CopyBoom))
                          for v in st.get('deco', ()))
                if not hit:
                    return 'skip'
            if x is not None:
                pos = 1 + fail.get('at', 0) % len(at)
                at.insert(pos, ('zz', x))
                ns = dict(at)
        # two copies under one name, or an already bound copy
        if len(set(used)) != len(used) or any(self.copies[u][2] for u in used):
            return 'skip'
        b = tuple(self.classes[x] for x in bases) or (oblate.Schema,)
        try:
            if armed:
                self.armed.add(self.me())
            self.arm(st)
            try:
                cls = type(oblate.Schema)(name, b, ns)
            finally:
                self.armed.discard(self.me())
        except simsched.Abort:
            raise
        except BaseException as e:
            if self.fired(st):
                for u in used:
                    self.copies[u][2] = True
                return 'interrupted'
            if not fail:
                self.bad('define', 'defining %s%s raised %r' % (name, bases, e))
                return 'failed'
            self.count(self.faults, 'failing definition: ' + fail['k'])
            for u in used:
                self.copies[u][2] = True
            return 'refused'
        self.fired(st)
        if fail:
            for u in used:
                self.copies[u][2] = True
            if fail['k'] in ('target', 'bound', 'setname'):
                self.bad('define', 'defining %s%s did not fail (%s)' % (name, bases, fail['k']))
            return 'failed'
        for u in used:
            self.copies[u][2] = True        # belongs to the class now
        self.own[name], self.models[name], self.dummy[name] = own, eff, dummy
        self.config[name] = config
        self.universe.update(f.load_key() for f in eff.values())
        self.universe.update(eff)
        for n in eff:
            self.fnames[id(getattr(cls, n))] = n
        self.classes[name] = cls

    def inherited(self, bases, n):
        for b in bases:
            x = getattr(self.classes[b], n, None)
            if x is not None:
                return x

    # probes
    def probe(self, st):
        if st['p'] in self.classes:
            self.one(st['p'], st['how'], st)

    def calls(self, fn):
        """(outcome of fn, the validators it ran: field -> ids)"""
        me = self.me()
        saved = self.rec.get(me)
        self.rec[me] = []
        try:
            try:
                out = fn()
            except simsched.Abort:
                raise
            except Exception as e:
                out = e
            got = {}
            for vid, f in self.rec[me]:
                got.setdefault(f, []).append(vid)
            return out, got
        finally:
            self.rec[me] = saved

    def want(self, fms):
        out = {}
        for f in fms:
            if f.vals:
                out[f.name] = sorted(i for i, _ in f.vals)
        return out

    def keys_of(self, e):
        return sorted(str(x.key) for x in e.errors)

    def one(self, c, how, st=None):
        cls, eff = self.classes[c], self.models[c]
        self.count(self.ops, 'use:' + how)
        act = None
        if st is not None and st.get('in'):
            act = lambda: self.step(st['in'])

        def data(fms, extra=()):
            d = {}
            todo = act
            for f in fms:
                v = d[f.load_key()] = f.good(c)[0]
                if isinstance(v, Tok):
                    v.act, todo = todo, None
            for k in extra:
                d[k] = Tok(k)
            return d

        def check(what, got, want):
            if got != want:
                self.bad('changed', '%s of schema %s%s: %s, but the fields it was defined with call for %s'
                         % (what, c, ' used by thread %d' % self.me() if self.me() >= 0 else '', got, want))

        full = list(eff.values())
        ignore = self.config[c].get('ignore_extra')
        if how == 'all':
            extra = sorted(self.universe - {f.load_key() for f in full})
            out, ran = self.calls(lambda: cls(data(full, extra)))
            if ignore or not extra:
                check('keys', 'refused' if isinstance(out, Exception) else 'accepted', 'accepted')
            elif isinstance(out, oblate.ValidationError):
                check('unknown keys', self.keys_of(out), extra)
            else:
                check('unknown keys', out if isinstance(out, Exception) else 'none', extra)
            check('validators run in construction', {k: sorted(v) for k, v in ran.items()}, self.want(full))
        elif how == 'own':
            out, ran = self.calls(lambda: cls(data(full)))
            if isinstance(out, Exception):
                check('construction', repr(out)[:300], 'accepted')
                return
            check('validators run in construction', {k: sorted(v) for k, v in ran.items()}, self.want(full))
            check('values', {n: repr(out.get_value_for(n)) for n in eff}, {n: f.good(c)[1] for n, f in eff.items()})
            d = self.calls(out.dump)[0]
            check('dump', {k: repr(v) for k, v in d.items()} if isinstance(d, dict) else d,
                  {f.dump_key(): f.good(c)[1] for f in full})
            check('values by load key', {f.name: repr(self.calls(lambda: out.get_value_for(f.load_key()))[0]) for f in full},
                  {f.name: (f if f.load_key() not in eff else eff[f.load_key()]).good(c)[1] for f in full})
        elif how == 'none':
            out, ran = self.calls(lambda: cls({}))
            need = sorted(f.load_key() for f in full if f.req)
            if need:
                check('missing keys', self.keys_of(out) if isinstance(out, oblate.ValidationError) else repr(out), need)
            else:
                check('construction', repr(out) if isinstance(out, Exception) else 'accepted', 'accepted')
                if not isinstance(out, Exception):
                    check('defaults', {f.name: out.get_value_for(f.name, None) for f in full},
                          {f.name: f.dflt for f in full})
            check('validators run in construction', ran, {})
        elif how in ('upd', 'set'):
            inst, _ = self.calls(lambda: cls(data(full)))
            if isinstance(inst, Exception):
                check('construction', repr(inst)[:300], 'accepted')
                return
            if how == 'upd':
                if any(f.fz for f in full):
                    return
                extra = sorted(self.universe - {f.load_key() for f in full})
                out, ran = self.calls(lambda: inst.update(data(full, extra)))
                if not ignore and extra:
                    check('unknown keys in update()', self.keys_of(out) if isinstance(out, oblate.ValidationError) else out, extra)
                else:
                    check('update()', out, None)
                check('validators run in update()', {k: sorted(v) for k, v in ran.items()}, self.want(full))
            else:
                for f in full:
                    v = TYPED[f.kind][1] if f.kind in TYPED else Tok('new')
                    out, ran = self.calls(lambda: setattr(inst, f.name, v))
                    if f.fz:
                        check('assignment to frozen %s' % f.name, [type(out).__name__, repr(getattr(inst, f.name))],
                              ['FrozenError', f.good(c)[1]])
                        continue
                    check('assignment to %s' % f.name, out, None)
                    check('validators run in assignment to %s' % f.name, {k: sorted(v) for k, v in ran.items()}, self.want([f]))
                    check('value assigned to %s' % f.name, repr(getattr(inst, f.name)), repr(v))
        elif how == 'typed':
            for f in full:
                if f.kind not in TYPED or f.ids(True):
                    continue
                for v, want in zip(VALUES, REF[f.kind, f.none]):
                    d = data(full)
                    d[f.load_key()] = v
                    got, _ = self.calls(lambda: attempt(lambda: cls(d), lambda x: x.get_value_for(f.name)))
                    check('what field %s makes of %r' % (f.name, v), got if isinstance(got, str) else repr(got), want)
        elif how == 'meta':
            for f in full:
                x = getattr(cls, f.name)
                check('field %s' % f.name, [x.name, x.load_key, x.dump_key, x.required, issubclass(cls, x.schema)],
                      [f.name, f.load_key(), f.dump_key(), f.req, True])
                self.same_validators('field %s of schema %s' % (f.name, c), x, f)

    def same_validators(self, what, x, f):
        ids = {id(v): k for k, v in self.vobj.items()}
        for raw in (False, True):
            got = [ids.get(id(v)) or getattr(v, '__name__', '?') for v in x.walk_validators(raw=raw)]
            if got != f.ids(raw):
                self.bad('changed', '%s%s validators are %s, not %s' % ('raw ' if raw else '', what, got, f.ids(raw)))

    def check_all(self, hows):
        for c in list(self.classes):
            for how in hows:
                self.one(c, how)
        for n, (x, f, flex, owner) in list(self.copies.items()):
            if not flex and self.me() in (-1, owner):
                self.same_validators('copied field %s' % n, x, f)


HOWS = ['all', 'own', 'none', 'upd', 'set', 'typed', 'meta']


def run(scn):
    global world
    warnings.simplefilter('ignore')
    w = world = World(scn)
    s = simsched.Scheduler(scn['sched'], step_cap=STEP_CAP + 40 * len(json.dumps(scn['threads'])))
    s.interrupts = '"intr"' in json.dumps(scn['threads'])
    try:
        reference()
        for st in scn['pre']:
            w.step(st)
            w.check_all(['all', 'own', 'meta'])

        def body(task, prog):
            for st in prog['steps']:
                if 'd' in st:
                    w.step(st)
                    if st.get('check'):
                        w.check_all([st['check']])
                else:
                    w.probe(st)
        s.run([(lambda task, p=p: body(task, p)) for p in scn['threads']])
        for x in s.tasks:
            if x.error is not None:
                raise x.error
        if s.aborted:
            w.bad('hang', s.aborted)
        else:
            w.check_all(HOWS)
    except Exception as e:
        import engine_m
        if scn.get('shrunk'):
            return {'invalid': engine_m.tb(e)}
        w.viol.append(runner.bug('malformed', engine_m.tb(e)))
    n = len(w.classes)
    shape = json.dumps([sorted(w.ops.items()), sorted(w.faults), s.sig, s.step])
    return {'viol': w.viol, 'trace': s.trace, 'digest': zlib.crc32(json.dumps([w.ops, [v['msg'] for v in w.viol]]).encode()),
            'stats': {'ops': w.ops, 'faults': w.faults, 'steps': s.step, 'switches': s.n_switch, 'threads': len(s.tasks),
                      'sig': s.sig, 'shape': zlib.crc32(shape.encode()), 'nontrivial': n > 1,
                      'gran': s.gran if len(s.tasks) > 1 else 'one', 'policy': s.policy if len(s.tasks) > 1 else 'one',
                      'extra': {'schemas_defined': n, 'fields_copied': len(w.copies)}}}


# -- generation --------------------------------------------------------------------------

class G:
    def __init__(self, seed):
        self.r = random.Random('C/%d' % seed)
        self.n = {'v': 0, 'c': 0, 'k': 0}
        self.classes = []       # name -> field names (approximately)
        self.copies = []
        self.known = {}
        self.kinds = {}         # class -> field name -> kind
        self.vids = []

    def new(self, k):
        self.n[k] += 1
        return '%s%d' % (k, self.n[k])

    def val(self):
        r = self.r
        if self.vids and r.random() < 0.25:
            return r.choice(self.vids)
        v = {'id': self.new('v'), 'kind': r.choice(['fn', 'obj'])}
        if r.random() < 0.3:
            v['raw'] = True
        self.vids.append(v)
        return v

    def field(self, n):
        r = self.r
        f = {'n': n, 'k': r.choice(['cf', 'cf', 'cf', 'any', 'cb', 'ab']) if r.random() < 0.7 else r.choice(sorted(TYPED))}
        if r.random() < 0.2:
            f['none'] = True
        if r.random() < 0.1:
            f['fz'] = True
        if r.random() < 0.4:
            f['lk'] = r.choice(['K_' + n, 'K2_' + n, 'K_' + n, r.choice('abcde')])
        if r.random() < 0.3:
            f['dk'] = r.choice(['D_' + n, 'D2_' + n])
        x = r.random()
        if x < 0.25:
            f['req'] = False
        elif x < 0.4:
            f['dflt'] = 'dflt_' + n
        f['vals'] = [self.val() for _ in range(r.choice([0, 0, 1, 1, 2]))]
        return f

    def cls(self):
        r = self.r
        names = 'abcde'
        nb = 0 if not self.classes or r.random() < 0.2 else r.choice([1, 1, 1, 1, 2, 2, 3])
        bases = r.sample(self.classes, min(nb, len(self.classes)))
        st = {'d': 'class', 'name': self.new('c').upper(), 'bases': bases, 'fields': []}
        inherited = sorted({n for b in bases for n in self.known[b]})
        own = set()
        for _ in range(r.choice([0, 1, 1, 2, 3]) if bases else r.choice([1, 2, 2, 3])):
            n = r.choice(inherited) if inherited and r.random() < 0.5 else r.choice(names)
            if n in own:
                continue
            own.add(n)
            if self.copies and r.random() < 0.3:
                st['fields'].append({'n': n, 'copy': r.choice(self.copies)})
            else:
                st['fields'].append(self.field(n))
        deco = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            pool = sorted(own | set(inherited))
            if not pool:
                break
            v = {'id': self.new('v'), 'f': r.choice(pool)}
            if r.random() < 0.3:
                v['raw'] = True
            if v['f'] in own and r.random() < 0.3:
                v['obj'] = True
            deco.append(v)
        if deco:
            st['deco'] = deco
        if r.random() < 0.12:
            st['config'] = r.choice([{'ignore_extra': True}, {'ignore_extra': False}, {'slotted': False}, {'add_repr': False}])
        if r.random() < 0.22:
            k = r.choice(['target', 'bound', 'setname', 'copy', 'add'])
            st['fail'] = {'k': k, 'at': r.randint(0, 6)}
            if k in ('copy', 'add'):
                # a validator registered for a field that fails just then
                pool = [n for n in inherited if n not in own and
                        {'copy': 'cb', 'add': 'ab'}[k] in [self.kinds[b].get(n) for b in bases]]
                if k == 'add':
                    pool += [f['n'] for f in st['fields'] if f.get('k') == 'ab']
                if pool:
                    st.setdefault('deco', []).append({'id': self.new('v'), 'f': r.choice(pool)})
                else:
                    st['fail']['k'] = 'setname'
            if k == 'bound':
                if not self.classes:
                    st['fail']['k'] = 'setname'
                else:
                    c = r.choice(self.classes)
                    st['fail']['of'] = [c, r.choice(self.known[c]) if self.known[c] else 'a']
        else:
            self.classes.append(st['name'])
            self.known[st['name']] = sorted(own | set(inherited))
            self.kinds[st['name']] = {n: k for b in reversed(bases) for n, k in self.kinds[b].items()}
            self.kinds[st['name']].update((f['n'], f.get('k')) for f in st['fields'])
        return st

    def copystep(self):
        r = self.r
        st = {'d': 'copy', 'to': self.new('k')}
        if self.copies and r.random() < 0.2:
            st['of'] = ['copy', r.choice(self.copies)]
        else:
            c = r.choice(self.classes)
            st['of'] = [c, r.choice(self.known[c] or ['a'])]
        self.copies.append(st['to'])
        return st

    def change(self, classes):
        r = self.r
        if self.copies and (not classes or r.random() < 0.75):
            t = ['copy', r.choice(self.copies[-3:])]
        elif classes:
            c = r.choice(self.classes)
            t = [c, r.choice(self.known[c] or ['a'])]
        else:
            return self.copystep()
        st = {'d': 'change', 't': t, 'how': r.choice(['add', 'add', 'remove', 'clear'])}
        if st['how'] != 'clear':
            st['v'] = self.val()
        elif r.random() < 0.6:
            st['raw'] = r.random() < 0.5
        return st

    def definition(self, intr=0.0, classes=False):
        r = self.r
        x = r.random()
        if x < 0.5 or not self.classes:
            st = self.cls()
        elif x < 0.7:
            st = self.copystep()
        else:
            st = self.change(classes)
        if r.random() < intr and not (st['d'] == 'change' and st['t'][0] != 'copy'):
            st['intr'] = r.randint(1, 60)
        return st

    def scenario(self, seed):
        r = self.r
        pre = [self.cls() for _ in range(r.choice([1, 2]))]
        pre[0].pop('fail', None)
        if pre[0]['name'] not in self.classes:
            self.classes.insert(0, pre[0]['name'])
            self.known[pre[0]['name']] = sorted({f['n'] for f in pre[0]['fields']})
            self.kinds[pre[0]['name']] = {f['n']: f.get('k') for f in pre[0]['fields']}
        pre += [self.definition(classes=True) for _ in range(r.randint(0, 5))]
        threads = []
        base = list(self.classes)
        for n in range(r.choice([1, 1, 2])):
            steps = []
            for _ in range(r.randint(1, 4)):
                st = self.definition(0.12)
                if st['d'] == 'class' and r.random() < 0.3:
                    st['check'] = r.choice(HOWS)
                steps.append(st)
            threads.append({'g': 'T%d' % n, 'steps': steps})
        for n in range(r.choice([0, 1, 1, 2])):
            steps = []
            for _ in range(r.randint(1, 5)):
                st = {'p': r.choice(base if r.random() < 0.8 else self.classes), 'how': r.choice(HOWS[:6])}
                if r.random() < 0.25:
                    st['in'] = self.definition()
                steps.append(st)
            threads.append({'g': 'U%d' % n, 'steps': steps})
        g = r.choice(['opcode', 'line', 'line', 'hook'])
        p = {'hook': (0.2, 0.5), 'line': (0.03, 0.1, 0.3), 'opcode': (0.01, 0.04, 0.1)}[g]
        return {'v': 1, 'seed': seed, 'pre': pre, 'threads': threads, 'universe': list('abcde') + ['zz', 'nope'],
                'sched': {'policy': r.choice(['rand', 'rand', 'pct']), 'gran': g, 'p': r.choice(p), 'k': r.randint(1, 6),
                          'horizon': {'hook': 60, 'line': 500, 'opcode': 3000}[g], 'seed': r.randrange(1 << 30)}}


class Engine:
    def __init__(self, pid):
        self.pid = pid

    def generate(self, seed):
        return G(seed).scenario(seed)

    def execute(self, scn):
        return runner.guarded(run, scn)
