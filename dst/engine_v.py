"""Engine V (C19, C20): a verdict must not depend on what else was or is being validated.

Histories of validations by several threads over shared types, fields and validator
instances, re-entered from and aborted inside the values, are compared step by step with
the same validation executed alone in a pristine process.
"""
import collections
import decimal
import gc
import json
import random
import re
import types as T
import typing as t
import warnings
import zlib

import seams
oblate = seams.load()
import simsched
import runner
import typing_extensions as te
from oblate import fields as F, validate as V

STEP_CAP = 3_000_000


class Hard(Exception):
    pass


class HardBase(BaseException):
    pass


EXC = {'Hard': Hard, 'HardBase': HardBase, 'ValueError': ValueError, 'AssertionError': AssertionError,
       'KeyError': KeyError, 'IndexError': IndexError, 'TypeError': TypeError, 'AttributeError': AttributeError,
       'RuntimeError': RuntimeError, 'StopIteration': StopIteration}

# -- values ------------------------------------------------------------------------

sim = None          # the running Sim


def hook(x, name):
    """Called by the value when the library touches it."""
    s = sim
    if s is None or s.quiet:
        return
    simsched.point(name)
    s.hooks += 1
    for a in x.b.get(name, ()):
        if a['a'] == 'raise':
            s.count('raise in ' + re.sub(r'\d', '', name))
            raise EXC[a['e']](a.get('tok', 'tok'))
        if a['a'] == 'run':
            s.count('re-entry in ' + re.sub(r'\d', '', name))
            s.step(a['step'])


class Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Hooked):
            hook(x, 'ic')
        return type.__instancecheck__(cls, x)


class Hooked:
    def __repr__(self):
        hook(self, 'repr')
        return '<%s %s>' % (type(self).__name__, self.u)

    def __str__(self):
        hook(self, 'str')
        return self.text

    def __format__(self, spec):
        hook(self, 'format')
        return '<%s>' % self.u


class Obj(Hooked):
    """An object with every conversion."""
    def __eq__(self, other):
        hook(self, 'eq')
        return type(other) is not type(self) and other == self.p or self is other

    def __hash__(self):
        return zlib.crc32(self.u.encode())

    def __len__(self):
        hook(self, 'len')
        return self.n

    def __int__(self):
        hook(self, 'int')
        return int(self.p)

    def __float__(self):
        hook(self, 'float')
        return float(self.p)

    def __bool__(self):
        hook(self, 'bool')
        return True


class ObjA(Obj, metaclass=Meta):
    pass


class ObjB(ObjA):
    pass


class ObjC(Obj, metaclass=Meta):
    pass


class HList(Hooked, list):
    __hash__ = None

    def __iter__(self):
        hook(self, 'iter')
        for n, v in enumerate(list.__iter__(self)):
            hook(self, 'it%d' % n)
            yield v

    def __len__(self):
        hook(self, 'len')
        return list.__len__(self)


class HSet(Hooked, set):
    __hash__ = None

    def __iter__(self):
        hook(self, 'iter')
        for n, v in enumerate(set.__iter__(self)):
            hook(self, 'it%d' % n)
            yield v

    def __len__(self):
        hook(self, 'len')
        return set.__len__(self)


class HTuple(Hooked, tuple):
    def __hash__(self):
        return zlib.crc32(self.u.encode())

    def __getitem__(self, i):
        hook(self, 'it%d' % i)
        return tuple.__getitem__(self, i)

    def __iter__(self):
        hook(self, 'iter')
        for n, v in enumerate(tuple.__iter__(self)):
            hook(self, 'it%d' % n)
            yield v

    def __len__(self):
        hook(self, 'len')
        return tuple.__len__(self)


class HDict(Hooked, dict):
    __hash__ = None

    def items(self):
        hook(self, 'iter')
        for n, (k, v) in enumerate(dict.items(self)):
            hook(self, 'it%d' % n)
            yield k, v

    def __len__(self):
        hook(self, 'len')
        return dict.__len__(self)


class HStr(Hooked, str):
    def __eq__(self, other):
        hook(self, 'eq')
        return str.__eq__(self, other)

    def __hash__(self):
        return str.__hash__(self)

    def __len__(self):
        hook(self, 'len')
        return str.__len__(self)


HOOKED = {'ObjA': ObjA, 'ObjB': ObjB, 'ObjC': ObjC, 'HList': HList, 'HSet': HSet, 'HTuple': HTuple, 'HDict': HDict,
          'HStr': HStr}


def dress(x, spec):
    x.u = spec.get('u', '?')
    x.b = spec.get('b', {})
    x.p = spec.get('p', 0)
    x.n = spec.get('n', 0)
    x.text = spec.get('t', x.u)
    return x


def build(spec, slots):
    k = spec[0]
    if k in ('i', 'b', 'f', 's'):
        return spec[1] if k != 'f' else float(spec[1])
    if k == 'n':
        return None
    if k == 'y':
        return spec[1].encode()
    if k == 'dec':
        return decimal.Decimal(spec[1])
    if k == 'c':
        return complex(spec[1])
    if k == 'L':
        return [build(x, slots) for x in spec[1]]
    if k == 'T':
        return tuple(build(x, slots) for x in spec[1])
    if k == 'S':
        return {build(x, slots) for x in spec[1]}
    if k == 'FS':
        return frozenset(build(x, slots) for x in spec[1])
    if k == 'D':
        return {build(a, slots): build(b, slots) for a, b in spec[1]}
    if k == 'dq':
        return collections.deque(build(x, slots) for x in spec[1])
    if k == 'r':
        return slots[spec[1]]
    if k == 'h':
        d = spec[1]
        c = HOOKED[d['k']]
        if issubclass(c, Obj):
            return dress(c(), d)
        if c is HDict:
            return dress(c({build(a, slots): build(b, slots) for a, b in d.get('i', ())}), d)
        if c is HStr:
            x = dress(str.__new__(c, d['p']), d)
            x.text = d['p']
            return x
        return dress(c(build(x, slots) for x in d.get('i', ())), d)
    raise KeyError(k)


def canon(x, depth=0):
    """What a value is, found out without calling into it."""
    c = type(x)
    if depth > 12:
        return '...'
    if c in (int, bool, str, float, complex, bytes, decimal.Decimal, type(None)):
        return [c.__name__, repr(x)]
    if isinstance(x, HStr):
        return [c.__name__, x.u, str.__str__(x)]
    if issubclass(c, dict):
        return [c.__name__, getattr(x, 'u', ''), [[canon(a, depth + 1), canon(b, depth + 1)] for a, b in dict.items(x)]]
    if issubclass(c, list):
        return [c.__name__, getattr(x, 'u', ''), [canon(v, depth + 1) for v in list.__iter__(x)]]
    if issubclass(c, tuple):
        return [c.__name__, getattr(x, 'u', ''), [canon(v, depth + 1) for v in tuple.__iter__(x)]]
    if issubclass(c, (set, frozenset)):
        return [c.__name__, getattr(x, 'u', ''), sorted((canon(v, depth + 1) for v in c.__mro__[-2].__iter__(x)), key=json.dumps)
                if c in (set, frozenset) else sorted((canon(v, depth + 1) for v in set.__iter__(x)), key=json.dumps)]
    if issubclass(c, collections.deque):
        return ['deque', [canon(v, depth + 1) for v in x]]
    if isinstance(x, Obj):
        return [c.__name__, x.u, x.p, x.n, x.text]
    return ['?', c.__name__]


# -- types -------------------------------------------------------------------------

LEAF = {'int': int, 'str': str, 'bool': bool, 'float': float, 'bytes': bytes, 'None': type(None), 'object': object,
        'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'complex': complex,
        'A': ObjA, 'B': ObjB, 'C': ObjC, 'Any': t.Any}
UNSUPPORTED = {'deque': t.Deque[int], 'type': t.Type[int], 'fset': t.FrozenSet[int], 'iter': t.Iterable[int],
               'map': t.Mapping[str, int], 'call': t.Callable[[int], int], 'cdeque': collections.deque[int],
               'ann': t.Annotated[int, 5], 'od': t.OrderedDict[str, int]}


def mktype(spec, tds):
    k = spec[0]
    sub = lambda: [mktype(x, tds) for x in spec[1:]]
    if k in LEAF:
        return LEAF[k]
    if k == 'List':
        return t.List[sub()[0]]
    if k == 'plist':
        return list[sub()[0]]
    if k == 'Set':
        return t.Set[sub()[0]]
    if k == 'pset':
        return set[sub()[0]]
    if k == 'Seq':
        return t.Sequence[sub()[0]]
    if k == 'Dict':
        return t.Dict[tuple(sub())]
    if k == 'pdict':
        return dict[tuple(sub())]
    if k == 'Tuple':
        return t.Tuple[tuple(sub())]
    if k == 'TupleE':
        return t.Tuple[sub()[0], ...]
    if k == 'Union':
        return t.Union[tuple(sub())]
    if k == 'Opt':
        return t.Optional[sub()[0]]
    if k == 'Bar':
        a, b = sub()
        return a | b
    if k == 'Lit':
        return t.Literal[tuple(build(x, {}) for x in spec[1:])]
    if k == 'TD':
        return tds[spec[1]]
    if k == 'uns':
        return UNSUPPORTED[spec[1]]
    raise KeyError(k)


def mktd(spec, tds):
    maker = {'t': t.TypedDict, 'te': te.TypedDict}[spec.get('from', 't')]
    hints = {}
    for k, mark, tp in spec['keys']:
        x = mktype(tp, tds)
        hints[k] = te.Required[x] if mark == 'R' else te.NotRequired[x] if mark == 'N' else x
    if spec.get('base') is not None:
        meta = type(tds[spec['base']])
        return T.new_class(spec['name'], (tds[spec['base']],), {'total': spec.get('total', True)},
                           lambda ns: ns.update(__annotations__=hints, __module__=__name__))
    return maker(spec['name'], hints, total=spec.get('total', True))


def mkfield(spec, w):
    k = spec['k']
    kw = {'required': False, 'none': spec.get('none', False)}
    ts = [mktype(x, w.tds) for x in spec.get('t', ())]
    kw['validators'] = [w.vals[i] for i in spec.get('vals', ())]
    if k == 'dict':
        return F.Dict(*ts, **kw)
    if k == 'td':
        return F.TypedDict(ts[0], **kw)
    if k == 'list':
        return F.List(*ts, **kw)
    if k == 'set':
        return F.Set(*ts, **kw)
    if k == 'lit':
        return F.Literal(*[build(x, {}) for x in spec['x']], **kw)
    if k == 'union':
        return F.Union(*ts, **kw)
    if k == 'texpr':
        return F.TypeExpr(ts[0], **kw)
    if k == 'any':
        return F.Any(**kw)
    if k == 'bool':
        for n in ('true_values', 'false_values'):
            if n in spec:
                kw[n] = spec[n]
    return {'str': F.String, 'int': F.Integer, 'float': F.Float, 'bool': F.Boolean}[k](strict=spec.get('strict', True), **kw)


class Custom(V.Validator):
    """A user's validator: fails unless the value's text contains a letter."""
    def __init__(self, spec):
        self.spec = spec

    def validate(self, value, context):
        simsched.point('custom')
        verdict(self.spec, value)


def verdict(spec, value):
    kind = spec.get('w', 'ne')
    if kind == 'type':
        ok = type(value).__name__ in spec['x']
    else:
        ok = zlib.crc32(json.dumps(canon(value)).encode()) % 3 != spec.get('x', 0)
    if not ok:
        e = spec.get('e', 'ValueError')
        if e == 'FieldError':
            # only where an operation is going on: it needs one
            if not sim.env[sim.me()]['direct']:
                raise oblate.FieldError(spec['id'])
            e = 'ValueError'
        raise EXC[e](spec['id'])


def mkval(spec, w):
    k = spec['k']
    if k == 'range':
        return V.Range(*spec['a'])
    if k == 'std':
        return V.Range.from_standard(range(*spec['a']))
    if k == 'len':
        return V.Length(**spec['a'])
    if k == 're':
        kw = dict(spec['a'])
        p = kw.pop('pattern')
        if kw.pop('pre', False):
            p = re.compile(p, kw.pop('flags', 0))
        return V.Regex(p, **kw)
    if k == 'exc':
        return V.Exclude(*[build(x, {}) for x in spec['x']])
    if k == 'or':
        return V.Or(*[w.vals[i] for i in spec['of']])
    if k == 'obj':
        return Custom(spec)
    if k == 'fn':
        def fn(schema, value, context):
            simsched.point('custom')
            verdict(spec, value)
        return fn
    raise KeyError(k)


class Taker(F.Field):
    def value_load(self, value, context):
        value.append(context)
        return value

    def value_dump(self, value, context):
        return value


class Given(oblate.Schema):
    f = Taker()


def context_for(value):
    """An instance and a genuine load context, for calling a validator by itself."""
    got = []
    s, simsched.current = simsched.current, None
    try:
        inst = Given({'f': got})
    finally:
        simsched.current = s
    got[0].value = value
    return inst, got[0]


# -- a world -----------------------------------------------------------------------

class Sim:
    def __init__(self, scn):
        self.scn = scn
        self.quiet = False
        self.hooks = 0
        self.faults = {}
        self.recs = []
        self.env = {}
        self.viol = []
        self.tds = []
        for spec in scn.get('tds', ()):
            self.tds.append(mktd(spec, self.tds))
        self.vals = []
        for spec in scn.get('vals', ()):
            self.vals.append(mkval(spec, self))
        self.maps = [{k: mktype(x, self.tds) for k, x in m} for m in scn.get('maps', ())]
        self.schemas = []
        for n, fs in enumerate(scn.get('fields', ())):
            ns = {f['n']: mkfield(f, self) for f in fs}
            self.schemas.append(type(oblate.Schema)('S%d' % n, (oblate.Schema,), ns))
        self.before = self.snapshot()

    def count(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1

    def snapshot(self):
        out = []
        for td in self.tds:
            out.append(['typed dict ' + td.__name__, [[k, repr(v)] for k, v in td.__annotations__.items()], td.__total__,
                        sorted(td.__required_keys__), sorted(td.__optional_keys__)])
        for n, m in enumerate(self.maps):
            out.append(['types mapping %d' % n, [[k, repr(v), id(v)] for k, v in m.items()]])
        return out

    def silently(self, fn):
        was, self.quiet = self.quiet, True
        try:
            return fn()
        finally:
            self.quiet = was

    def me(self):
        s = simsched.current
        return s.cur.tid if s is not None else 0

    def start(self, tid, prog):
        slots = {}
        for n, spec in prog.get('slots', ()):
            slots[n] = self.silently(lambda: build(spec, slots))
        self.env[tid] = {'slots': slots, 'muts': [], 'prog': prog, 'depth': 0, 'reent': 0, 'direct': False}

    def step(self, st):
        env = self.env[self.me()]
        if env['depth'] > 6 or env['reent'] > 15:
            return          # a value that calls in with itself
        env['reent'] = env['reent'] + 1 if env['depth'] else 0
        k = st['e']
        if k == 'mut':
            if env['depth'] == 0:
                self.silently(lambda: mutate(env['slots'].get(st['s']), st, env['slots']))
                env['muts'].append(st)
            return
        if k == 'gc':
            gc.collect()
            return
        simsched.point('step')
        values = self.silently(lambda: [build(x, env['slots']) for x in st['x']])
        was = canon(values)
        env['depth'] += 1
        direct, env['direct'] = env['direct'], k == 'direct'
        s = simsched.current
        if s is not None and st.get('intr') and env['depth'] == 1:
            s.cur.intr, s.cur.intr_fired = st['intr'], False
        try:
            out = self.attempt(st, values)
        finally:
            env['depth'] -= 1
            env['direct'] = direct
        fired = False
        if s is not None:
            fired = bool(s.cur.intr_fired)
            if env['depth'] == 0:
                s.cur.intr, s.cur.intr_fired = None, False
                if fired:
                    self.count('interrupt@line')
        if canon(values) != was:
            self.viol.append(runner.bug('modified', 'validation changed the value: %s became %s'
                                        % (js(was)[:300], js(canon(values))[:300]), k=k))
        self.recs.append({'tid': self.me(), 'muts': len(env['muts']), 'st': st, 'out': out, 'intr': fired})
        simsched.point('done')

    def attempt(self, st, values):
        try:
            return ['ok', self.do(st, values)]
        except simsched.Abort:
            raise
        except oblate.TypeValidationError as e:
            return ['type errors', sorted([[k, sorted(map(str, v))] for k, v in e.errors.items()])]
        except oblate.ValidationError as e:
            return ['invalid', report(e)]
        except BaseException as e:
            return ['raised', type(e).__name__, text(e)]

    def do(self, st, values):
        k = st['e']
        if k == 'vt':
            m = self.maps[st['m']]
            if st.get('proxy'):
                m = T.MappingProxyType(m)
            if st.get('fresh'):
                m = {a: mktype(x, self.tds) for a, x in st['fresh']}
            x = dict(zip(st['keys'], values))
            if st.get('b') is not None:
                x = dress(HDict(x), {'b': st['b'], 'u': 'arg'})
            kw = {n: st[n] for n in ('ignore_extra', 'ignore_missing') if n in st}
            oblate.validate_types(m, x, **kw)
            return None
        if k == 'direct':
            inst, ctx = self.silently(lambda: context_for(values[0]))
            self.vals[st['val']](inst, values[0], ctx)
            return None
        S = self.schemas[st['c']]
        data = dict(zip(st['keys'], values))
        if k == 'new':
            inst = S(data)
        elif k == 'upd':
            inst = S({})
            inst.update(data)
        elif k == 'set':
            inst = S({})
            for n, v in data.items():
                setattr(inst, n, v)
        return [[n, canon(inst.get_value_for(n))] for n in st['keys']]


def mutate(x, st, slots):
    try:
        v = build(st['v'], slots)
        if isinstance(x, list):
            if st.get('del') and len(x):
                list.pop(x)
            else:
                list.append(x, v)
        elif isinstance(x, set):
            set.discard(x, v) if st.get('del') else set.add(x, v)
        elif isinstance(x, dict):
            dict.pop(x, st['key'], None) if st.get('del') else dict.__setitem__(x, st['key'], v)
        elif isinstance(x, Obj):
            x.p, x.n, x.text = st.get('p', 0), st.get('n', 0), st.get('t', 't')
    except TypeError:
        pass        # unhashable


def text(e):
    try:
        return str(e)
    except BaseException as x:
        return repr(type(x))


def report(e):
    out = []
    for x in e.errors:
        m = x.message
        if isinstance(m, dict):
            m = {k: [text(y) for y in v] for k, v in m.items()}
        out.append([str(x.key), m if isinstance(m, (dict, list)) else text(m)])
    return sorted(out, key=js)


def js(x):
    return json.dumps(x, sort_keys=True, default=str)


def same(out, ref):
    """Outcomes are equal, but for containers whose repr was being computed when a hook in it
    called in again (Python writes those as '(...)')."""
    if out == ref:
        return True
    a, b = js(out), js(ref)
    parts = re.split(r'\(\.\.\.\)|\[\.\.\.\]|\{\.\.\.\}', a)
    return len(parts) > 1 and bool(re.fullmatch('.*'.join(map(re.escape, parts)), b))


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != 'intr'}
    if isinstance(x, list):
        return [strip(v) for v in x if not (isinstance(v, dict) and v.get('a') == 'run')]
    return x


def open_world(scn):
    global sim
    warnings.simplefilter('ignore')
    try:
        sim = Sim(scn)
    except (KeyError, IndexError) as e:
        return {'invalid': repr(e)}
    except Exception as e:
        import engine_m
        return {'viol': [runner.bug('define', engine_m.tb(e))]}


def together(scn):
    res = open_world(scn)
    if res is not None:
        return res
    w = sim
    s = simsched.Scheduler(scn['sched'], step_cap=STEP_CAP + 40 * len(json.dumps(scn['threads'])))
    s.interrupts = '"intr"' in json.dumps(scn['threads'])

    def body(task, prog):
        w.start(task.tid, prog)
        for st in prog['steps']:
            w.step(st)
    s.run([(lambda task, p=p: body(task, p)) for p in scn['threads']])
    viol = w.viol
    for x in s.tasks:
        if x.error is not None:
            import engine_m
            if isinstance(x.error, (KeyError, IndexError)) and scn.get('shrunk'):
                return {'invalid': repr(x.error)}
            viol.append(runner.bug('malformed', engine_m.tb(x.error)))
    if s.aborted:
        viol.append(runner.bug('hang', s.aborted))
    w.quiet = True
    after = w.snapshot()
    for a, b in zip(w.before, after):
        if a != b:
            viol.append(runner.bug('modified', 'validation changed %s: %s became %s' % (a[0], js(a[1:]), js(b[1:]))))
    kinds = {}
    for r in w.recs:
        kinds[r['out'][0]] = kinds.get(r['out'][0], 0) + 1
    shape = js([[r['tid'], r['out'][0]] for r in w.recs] + [s.sig, s.step])
    return {'viol': viol, 'recs': w.recs, 'trace': s.trace, 'digest': zlib.crc32(js([[r['out'], r['tid']] for r in w.recs]).encode()),
            'stats': {'ops': kinds, 'faults': w.faults, 'steps': s.step, 'switches': s.n_switch, 'threads': len(s.tasks),
                      'sig': s.sig, 'shape': zlib.crc32(shape.encode()), 'nontrivial': len(w.recs) > 2,
                      'gran': s.gran if len(s.tasks) > 1 else 'one', 'policy': s.policy if len(s.tasks) > 1 else 'one',
                      'extra': {'callbacks_from_values': w.hooks}}}


def alone(scn, tid, nmut, st):
    res = open_world(scn)
    if res is not None:
        return res
    prog = dict(scn['threads'][tid])
    prog['slots'] = strip(prog['slots'])
    s = simsched.Scheduler({'policy': 'seq', 'gran': 'hook'}, step_cap=STEP_CAP)

    def body(task):
        sim.start(task.tid, prog)
        n = 0
        for x in prog['steps']:
            if x['e'] == 'mut' and n < nmut:
                sim.step(x)
                n += 1
        sim.step(st)
    s.run([body])
    if s.tasks[0].error is not None:
        raise s.tasks[0].error
    if s.aborted:
        return {'viol': [runner.bug('hang', s.aborted)]}
    return {'out': sim.recs[-1]['out']}


# -- generation ----------------------------------------------------------------------

class G:
    def __init__(self, pid, seed):
        self.r = random.Random('V/%s/%d' % (pid, seed))
        self.pid = pid
        self.uid = 0
        self.cases = []
        self.budget = 30
        self.alike = self.r.random() < 0.35

    def u(self):
        # sometimes different objects look alike
        if self.alike and self.r.random() < 0.6:
            return 'w%d' % self.r.randint(1, 2)
        self.uid += 1
        return 'u%d' % self.uid

    # values
    def leaf(self):
        r = self.r
        return r.choice([['i', 1], ['i', 1], ['b', True], ['f', 1.0], ['s', '1'], ['i', 0], ['b', False], ['f', 0.0],
                         ['n'], ['s', ''], ['s', 'abc'], ['s', 'Yes'], ['y', 'ab'], ['i', r.randint(-3, 12)],
                         ['s', r.choice(['a', 'b', 'ab1', '12', 'x y', 'true', '{value}'])], ['f', 2.5], ['dec', '2.5'],
                         ['c', '1'], self.hobj(), self.hobj(),
                         ['h', {'k': 'HStr', 'u': self.u(), 'p': r.choice(['1', 'abc', 'a']), 'b': self.hooks(['eq', 'len', 'repr', 'str', 'format'])}]])

    def hooks(self, names, p=0.3):
        r = self.r
        b = {}
        for n in names:
            if r.random() < p / 2:
                b[n] = [self.act()]
        return b

    def act(self):
        r = self.r
        if self.cases and r.random() < 0.6 and self.budget > 0:
            self.budget -= 1
            if r.random() < 0.5:
                st = r.choice(self.cases)
            else:
                st = self.case()
            return {'a': 'run', 'step': strip(st)}
        return {'a': 'raise', 'e': r.choice(sorted(EXC)), 'tok': self.u()}

    def hobj(self):
        r = self.r
        return ['h', {'k': r.choice(['ObjA', 'ObjB', 'ObjC']), 'u': self.u(), 'p': r.choice([0, 1, 2, 5, '1', 'abc', 'x']),
                      'n': r.choice([0, 1, 2, 3, 5, 9]), 't': r.choice(['abc', '1', 'yes', 'q']),
                      'b': self.hooks(['ic', 'eq', 'len', 'int', 'float', 'str', 'repr'])}]

    def hashable(self):
        for _ in range(20):
            v = self.leaf()
            return v

    def value(self, depth=0):
        r = self.r
        if depth > 2 or r.random() < 0.45:
            return self.leaf()
        n = r.choice([0, 1, 1, 2, 3])
        k = r.choice(['L', 'L', 'T', 'S', 'D', 'D', 'hL', 'hT', 'hS', 'hD', 'dq', 'FS'])
        return self.container(k, [self.value(depth + 1) for _ in range(n)] if k in ('L', 'T', 'dq', 'hL', 'hT')
                              else [[self.hashable(), self.value(depth + 1)] for _ in range(n)] if k[-1] == 'D'
                              else [self.hashable() for _ in range(n)])

    def container(self, k, items):
        if k[0] != 'h':
            return [k, items]
        names = ['iter', 'len', 'repr'] + ['it%d' % i for i in range(len(items))]
        return ['h', {'k': {'L': 'HList', 'T': 'HTuple', 'S': 'HSet', 'D': 'HDict'}[k[1]], 'u': self.u(), 'i': items,
                      'b': self.hooks(names)}]

    # types
    def tp(self, depth=0):
        r = self.r
        if depth > 2 or r.random() < 0.3:
            return [r.choice(['int', 'int', 'str', 'bool', 'float', 'bytes', 'None', 'A', 'B', 'C', 'A', 'object', 'list',
                              'dict', 'Any', 'complex'])]
        k = r.choice(['List', 'plist', 'Set', 'pset', 'Seq', 'Dict', 'pdict', 'Tuple', 'TupleE', 'Union', 'Union', 'Opt', 'Bar',
                      'Lit', 'Lit', 'TD', 'TD', 'TD', 'uns'])
        if k in ('List', 'plist', 'Set', 'pset', 'Seq', 'TupleE', 'Opt'):
            return [k, self.tp(depth + 1)]
        if k in ('Dict', 'pdict'):
            return [k, self.tp(depth + 2), self.tp(depth + 1)]
        if k == 'Bar':
            return [k, [r.choice(['int', 'str', 'bool', 'A'])], [r.choice(['float', 'bytes', 'B', 'list'])]]
        if k in ('Tuple', 'Union'):
            return [k] + [self.tp(depth + 1) for _ in range(r.choice([2, 2, 3]))]
        if k == 'Lit':
            pool = [['i', 1], ['b', True], ['s', '1'], ['s', 'abc'], ['i', 0], ['b', False], ['n'], ['i', 5], ['s', 'a'], ['y', 'ab']]
            return [k] + r.sample(pool, r.choice([1, 1, 2, 3]))
        if k == 'TD':
            if not self.ntd:
                return ['int']
            return ['TD', r.randrange(self.ntd)]
        return ['uns', r.choice(sorted(UNSUPPORTED))]

    def fit(self, tp, depth=0):
        """A value that mostly has the type."""
        r = self.r
        if r.random() < 0.13 or depth > 4:
            return self.value(2)
        k = tp[0]
        h = r.random() < 0.4
        n = r.choice([0, 1, 1, 2, 2, 3])
        if k in ('List', 'plist', 'list', 'Seq'):
            e = tp[1] if len(tp) > 1 else ['int']
            return self.container('hL' if h else 'L', [self.fit(e, depth + 1) for _ in range(n)])
        if k in ('Set', 'pset', 'set'):
            e = tp[1] if len(tp) > 1 else ['int']
            return self.container('hS' if h else 'S', [self.fith(e) for _ in range(n)])
        if k in ('Dict', 'pdict', 'dict'):
            a, b = tp[1:] if len(tp) > 2 else (['str'], ['int'])
            return self.container('hD' if h else 'D', [[self.fith(a), self.fit(b, depth + 1)] for _ in range(n)])
        if k == 'Tuple':
            es = tp[1:] if r.random() < 0.85 else tp[1:-1]
            return self.container('hT' if h else 'T', [self.fit(e, depth + 1) for e in es])
        if k == 'TupleE':
            return self.container('hT' if h else 'T', [self.fit(tp[1], depth + 1) for _ in range(n)])
        if k in ('Union', 'Bar', 'Opt'):
            if k == 'Opt' and r.random() < 0.3:
                return ['n']
            return self.fit(r.choice(tp[1:]), depth + 1)
        if k == 'Lit':
            v = r.choice(tp[1:])
            if r.random() < 0.5:
                o = self.hobj()
                if r.random() < 0.6:
                    o[1]['p'] = v[1] if v[0] in 'ibs' else 0
                return o
            return v
        if k == 'TD':
            items = []
            td = self.tds[tp[1]]
            for key, mark, kt in self.keys_of(td):
                if r.random() < (0.5 if mark == 'N' or not td.get('total', True) else 0.9):
                    items.append([['s', key], self.fit(kt, depth + 1)])
            if r.random() < 0.15:
                items.append([['s', 'extra'], ['i', 1]])
            return self.container('hD' if h else 'D', items)
        if k in ('A', 'B', 'C'):
            o = self.hobj()
            o[1]['k'] = {'A': r.choice(['ObjA', 'ObjB']), 'B': 'ObjB', 'C': 'ObjC'}[k]
            return o
        return {'int': ['i', r.randint(0, 9)], 'str': ['s', r.choice(['a', 'abc', '1'])], 'bool': ['b', r.random() < 0.5],
                'float': ['f', r.choice([1.0, 2.5])], 'bytes': ['y', 'ab'], 'None': ['n'], 'complex': ['c', '1']}.get(k) \
            or self.value(2)

    def fith(self, tp):
        v = self.fit(tp, 3)
        return v if hashable(v) else self.hashable()

    def keys_of(self, td):
        out = list(self.keys_of(self.tds[td['base']])) if td.get('base') is not None else []
        return out + td['keys']

    def typed_dicts(self):
        r = self.r
        self.tds = []
        self.ntd = 0
        for i in range(r.choice([0, 1, 2, 2, 3])):
            td = {'name': r.choice(['P', 'P', 'Q']), 'keys': [], 'from': r.choice(['t', 'te'])}
            names = ['a', 'b', 'c', 'd']
            if i and r.random() < 0.3:
                td['base'] = r.randrange(i)
                td['from'] = self.tds[td['base']]['from']
                names = ['d', 'e', 'f']
            if r.random() < 0.3:
                td['total'] = False
            for k in r.sample(names, r.choice([1, 2, 3])):
                td['keys'].append([k, r.choice(['', '', '', 'R', 'N']), self.tp(1)])
            self.tds.append(td)
            self.ntd = len(self.tds)

    # C19
    def case19(self):
        r = self.r
        if r.random() < (0.15 if self.focus else 0.5) and self.maps:
            m = r.randrange(len(self.maps))
            keys, xs = [], []
            for k, tp in self.maps[m]:
                if r.random() < 0.85:
                    keys.append(k)
                    xs.append(self.arg(tp))
            if r.random() < 0.15:
                keys.append('zz')
                xs.append(['i', 1])
            st = {'e': 'vt', 'm': m, 'keys': keys, 'x': xs}
            if r.random() < 0.2:
                st['ignore_extra'] = r.random() < 0.7
            if r.random() < 0.2:
                st['ignore_missing'] = r.random() < 0.7
            if r.random() < 0.15:
                st['proxy'] = 1
            elif r.random() < 0.1:
                st['fresh'] = [[k, self.tp(1)] for k, _ in self.maps[m]]
            if r.random() < 0.3:
                st['b'] = self.hooks(['iter'] + ['it%d' % i for i in range(len(keys))])
            return st
        c = r.randrange(len(self.fields))
        fs = r.sample(self.fields[c], r.choice([1, 1, 1, min(2, len(self.fields[c]))]))
        e = r.choice(['new', 'new', 'upd', 'set'])
        if e == 'set':
            fs = fs[:1]
        return {'e': e, 'c': c, 'keys': [f['n'] for f in fs], 'x': [self.farg(f) for f in fs]}

    def arg(self, tp):
        r = self.r
        if self.slots and r.random() < 0.25:
            return ['r', r.choice(self.slots)[0]]
        return self.fit(tp)

    def farg(self, f):
        r = self.r
        k = f['k']
        if k == 'lit':
            return self.arg(['Lit'] + f['x'])
        if k in ('td', 'texpr'):
            return self.arg(f['t'][0])
        if k == 'union':
            return self.arg(['Union'] + f['t'])
        return self.arg([{'dict': 'Dict', 'list': 'List', 'set': 'Set'}[k]] + f['t'])

    def pools19(self):
        r = self.r
        self.typed_dicts()
        self.maps = [[[k, self.tp()] for k in r.sample(['a', 'b', 'c', 'd'], r.choice([1, 2, 2, 3]))]
                     for _ in range(r.choice([1, 1, 2]))]
        self.fields = []
        for _ in range(r.choice([1, 1, 2])):
            fs = []
            for n in range(r.choice([1, 2, 3])):
                k = r.choice(['dict', 'td', 'list', 'set', 'lit', 'union', 'texpr', 'texpr', 'td'])
                f = {'n': 'f%d' % n, 'k': k}
                if k == 'td':
                    if not self.ntd:
                        continue
                    f['t'] = [['TD', r.randrange(self.ntd)]]
                elif k == 'lit':
                    f['x'] = self.lit()
                elif k == 'union':
                    f['t'] = [['int'], ['str'], ['A'], ['float'], ['B'], ['None']]
                    r.shuffle(f['t'])
                    f['t'] = f['t'][:r.choice([2, 2, 3])]
                else:
                    f['t'] = [self.tp(1) for _ in range(2 if k == 'dict' else 1)]
                    if k != 'texpr' and r.random() < 0.15:
                        f['t'] = []
                if r.random() < 0.2:
                    f['none'] = True
                fs.append(f)
            if not fs:
                fs = [{'n': 'f0', 'k': 'texpr', 't': [self.tp()]}]
            self.fields.append(fs)
        return {'tds': self.tds, 'maps': self.maps, 'fields': self.fields}

    def lit(self):
        pool = [['i', 1], ['b', True], ['s', '1'], ['s', 'abc'], ['i', 0], ['s', 'a'], ['i', 5]]
        return self.r.sample(pool, self.r.choice([1, 2, 3]))

    # C20
    def pools20(self):
        r = self.r
        self.vspecs = []
        for n in range(r.choice([2, 3, 4, 5])):
            k = r.choice(['range', 'range', 'std', 'len', 'len', 're', 're', 'exc', 'exc', 'or', 'or', 'or', 'obj', 'fn'])
            if k == 'or' and not self.vspecs:
                k = 'len'
            v = {'k': k, 'id': 'c%d' % n}
            if k in ('range', 'std'):
                a = r.randint(0, 5)
                b = a + r.choice([0, 1, 3, 8])
                v['a'] = [a, b + 1] if k == 'std' else r.choice([[a, b], [b]])
            elif k == 'len':
                a = r.randint(0, 3)
                v['a'] = r.choice([{'min': a}, {'max': a}, {'exact': a}, {'min': a, 'max': a + 2}])
            elif k == 're':
                v['a'] = {'pattern': r.choice(['a', 'b$', '[a-c]+', r'\d', 'A', '^$', 'a.c'])}
                m = r.choice([None, 'full_match', 'search'])
                if m:
                    v['a'][m] = True
                if r.random() < 0.4:
                    v['a']['flags'] = int(re.I)
                if r.random() < 0.3:
                    v['a']['pre'] = True
                if r.random() < 0.6:
                    v['a']['fail_message'] = r.choice(['no {value}', '{value} is not {pattern.pattern}', 'bad', '{value!r}'])
            elif k == 'exc':
                v['x'] = [r.choice([['i', 1], ['s', 'abc'], ['b', False], ['s', '1'], ['n'], ['f', 2.5], ['i', 5],
                                    ['T', [['i', 1]]]]) for _ in range(r.choice([1, 1, 2, 3]))]
            elif k == 'or':
                v['of'] = [r.randrange(len(self.vspecs)) for _ in range(r.choice([1, 2, 2, 3]))]
            else:
                if r.random() < 0.5:
                    v['w'] = 'type'
                    v['x'] = r.sample(['int', 'str', 'bool', 'float', 'ObjA', 'list'], 3)
                else:
                    v['x'] = r.randrange(3)
                v['e'] = r.choice(['ValueError', 'AssertionError', 'FieldError'])
            self.vspecs.append(v)
        self.fields = []
        for _ in range(r.choice([1, 2])):
            fs = []
            for n in range(r.choice([1, 2, 3])):
                k = r.choice(['any', 'any', 'any', 'str', 'int', 'float', 'bool'])
                f = {'n': 'f%d' % n, 'k': k, 'vals': [r.randrange(len(self.vspecs)) for _ in range(r.choice([0, 1, 1, 2]))]}
                if r.random() < 0.65:
                    f['strict'] = False
                if k == 'bool' and r.random() < 0.5:
                    f['true_values'] = r.sample(['1', 'Yes', 'abc', 'yes', '1.0'], 2)
                    if r.random() < 0.5:
                        f['false_values'] = r.sample(['0', 'q', '', '0.0', 'False'], 2)
                if r.random() < 0.2:
                    f['none'] = True
                fs.append(f)
            self.fields.append(fs)
        return {'vals': self.vspecs, 'fields': self.fields}

    def arg20(self):
        r = self.r
        if self.slots and r.random() < 0.3:
            return ['r', r.choice(self.slots)[0]]
        return self.leaf() if r.random() < 0.7 else self.value(1)

    def case20(self):
        r = self.r
        if r.random() < 0.3:
            return {'e': 'direct', 'val': r.randrange(len(self.vspecs)), 'x': [self.arg20()]}
        c = r.randrange(len(self.fields))
        fs = r.sample(self.fields[c], r.choice([1, 1, min(2, len(self.fields[c]))]))
        e = r.choice(['new', 'new', 'upd', 'set'])
        if e == 'set':
            fs = fs[:1]
        return {'e': e, 'c': c, 'keys': [f['n'] for f in fs], 'x': [self.arg20() for _ in fs]}

    def near(self, v):
        """Values on both sides of what the validator accepts."""
        k = v['k']
        if k in ('range', 'std'):
            a = v['a']
            lo, hi = (0, a[0]) if len(a) == 1 else a
            return [['i', n] for n in (lo - 1, lo, hi, hi + 1)]
        if k == 'len':
            return [['s', 'abcdefg'[:n]] for n in sorted({max(0, n + d) for n in v['a'].values() for d in (-1, 0, 1)})]
        if k == 're':
            return [['s', x] for x in ('a', 'ab', 'A', '', '5', 'abc', 'zz', 'b')]
        if k == 'exc':
            return v['x'] + [['i', 77], ['s', 'zz']]
        if k == 'or':
            return [x for i in v['of'] for x in self.near(self.vspecs[i])]
        return [['i', 1], ['s', 'a'], ['b', True], ['L', []]]

    def duel(self, scn):
        """Threads hammering one validator with a few values."""
        r = self.r
        n = r.choice([i for i, v in enumerate(self.vspecs) if v['k'] not in ('obj', 'fn')] or [0])
        xs = self.near(self.vspecs[n])
        r.shuffle(xs)
        xs = xs[:4]
        scn['threads'] = [{'g': 'T%d' % t, 'slots': [], 'steps': [
            {'e': 'direct', 'val': n, 'x': [r.choice(xs)]} for _ in range(r.randint(4, 10))]}
            for t in range(r.choice([2, 2, 3]))]
        g = r.choice(['opcode', 'opcode', 'line'])
        scn['sched'] = {'policy': 'rand', 'gran': g, 'p': r.choice((0.05, 0.15, 0.3)), 'k': 1,
                        'horizon': 400, 'seed': r.randrange(1 << 30)}
        return scn

    def case(self):
        return self.case19() if self.pid == 'C19' else self.case20()

    def scenario(self, seed):
        r = self.r
        self.slots = []
        self.ntd = 0
        scn = {'v': 1, 'seed': seed, 'what': self.pid}
        scn.update(self.pools19() if self.pid == 'C19' else self.pools20())
        if self.pid == 'C20' and r.random() < 0.15:
            return self.duel(scn)
        # most threads work with the same field or types
        focus = self.focus = r.random() < 0.35
        if focus:
            if self.pid == 'C19' and r.random() < 0.2:
                self.maps = scn['maps'] = [r.choice(self.maps)[:2]]
            f = r.choice(r.choice(self.fields))
            if self.pid == 'C19' and r.random() < 0.2:
                f = {'n': 'f0', 'k': 'lit', 'x': self.lit()}
            self.fields = scn['fields'] = [[f]]
        names = ['x', 'y', 'z'][:r.choice([0, 1, 2, 3])]
        nth = r.choice([2, 3, 4] if focus else [1, 2, 2, 3, 3])
        scn['threads'] = []
        for n in range(nth):
            self.slots = []
            for s in names:
                v = self.slotvalue()
                self.slots.append([s, v])
            steps = []
            for _ in range(r.randint(2, 6)):
                if self.slots and r.random() < 0.15:
                    steps.append({'e': 'mut', 's': r.choice(names), 'v': r.choice([['i', 3], ['s', 'm'], ['n'], ['L', []]]),
                                  'key': r.choice(['a', 'b', 'm']), 'p': r.choice([0, 1, 'abc']), 'n': r.randint(0, 5),
                                  't': r.choice(['1', 'm'])})
                    if r.random() < 0.4:
                        steps[-1]['del'] = 1
                    continue
                if r.random() < 0.04:
                    steps.append({'e': 'gc'})
                    continue
                if self.cases and r.random() < 0.3:
                    st = json.loads(json.dumps(strip(r.choice(self.cases))))
                else:
                    st = self.case()
                    self.cases.append(st)
                if r.random() < 0.06:
                    st = dict(st, intr=r.randint(1, 40))
                steps.append(st)
            if r.random() < 0.03:
                # the same one, aborted by an exception, many times over
                cut = [i for i, st in enumerate(steps) if '"raise"' in js(st)]
                if cut:
                    i = r.choice(cut)
                    steps[i + 1:i + 1] = [dict(strip(steps[i])) for _ in range(40)]
            scn['threads'].append({'g': 'T%d' % n, 'slots': self.slots, 'steps': steps})
        g = r.choice(['opcode', 'opcode', 'line', 'line', 'hook'])
        base = {'hook': (0.2, 0.5), 'line': (0.03, 0.1, 0.3, 0.5), 'opcode': (0.01, 0.04, 0.1)}[g]
        scn['sched'] = {'policy': r.choice(['rand', 'rand', 'pct']), 'gran': g, 'p': r.choice(base), 'k': r.randint(1, 6),
                        'horizon': {'hook': 60, 'line': 400, 'opcode': 3000}[g], 'seed': r.randrange(1 << 30)}
        return scn

    def slotvalue(self):
        r = self.r
        if self.pid == 'C19':
            fs = [f for l in self.fields for f in l]
            self.slots, keep = [], self.slots
            v = self.farg(r.choice(fs)) if r.random() < 0.5 or not self.maps else self.fit(r.choice(r.choice(self.maps))[1])
            self.slots = keep
            return v
        return r.choice([['L', [['i', 1]]], ['L', []], self.hobj(), self.hobj(), ['D', []],
                         self.container('hL', [['i', 1], ['s', 'a']])])


def hashable(v):
    if v[0] in ('L', 'D', 'S', 'dq', 'r'):
        return False
    if v[0] in ('T', 'FS'):
        return all(hashable(x) for x in v[1])
    if v[0] == 'h':
        return v[1]['k'].startswith('Obj') or v[1]['k'] == 'HStr' or (v[1]['k'] == 'HTuple' and all(map(hashable, v[1]['i'])))
    return True


class Engine:
    def __init__(self, pid):
        self.pid = pid

    def generate(self, seed):
        return G(self.pid, seed).scenario(seed)

    def execute(self, scn):
        res = runner.guarded(together, scn)
        recs = res.pop('recs', None)
        if recs is None:
            return res
        memo = {}
        n = 0
        for r in recs:
            if r['intr']:
                continue
            st = strip(r['st'])
            key = js([r['tid'], r['muts'], st])
            if key not in memo:
                memo[key] = runner.guarded(alone, scn, r['tid'], r['muts'], st)
            ref = memo[key]
            if 'out' not in ref:
                if ref.get('viol'):
                    res['viol'] += ref['viol']
                    break
                return dict(res, **ref)
            n += 1
            if not same(r['out'], ref['out']):
                res['viol'].append(runner.bug('verdict', '%s %s: %s here, %s when it is the only validation' % (
                    st['e'], js({k: v for k, v in st.items() if k != 'e'})[:300], js(r['out'])[:300], js(ref['out'])[:300]),
                    g='T%d' % r['tid'], k=st['e']))
        res['stats']['extra'].update({'verdicts_compared_with_one_alone': n, 'alone_runs': len(memo)})
        return res
