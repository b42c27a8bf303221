"""Executes a scenario (plain JSON data) against the real library.

A scenario describes schema classes, one program of operations per simulated thread, and
*behaviours*: what the user code reached by a value (validators, load, dump, default,
hooks, data mappings) does when it handles that value - raise something, run a whole
re-entrant program in its own or another execution context, probe what the library says
the current schema/field/context is, change the validator registry.  Behaviours are
attached to values, so they do not depend on the schedule.

The world only records; model.py says what should have been recorded and judge.py
compares.  A few facts that can be checked on the spot, from the arguments of a callback
alone, are checked here and recorded as notes.
"""
import gc
import re
import sys
import json
import asyncio
import contextvars
import functools
import collections.abc
import types
import typing
import warnings

import seams
import simsched

oblate = seams.load()
from oblate import fields as F, validate as VD          # noqa: E402
Schema = oblate.Schema
FieldError = oblate.FieldError
LoadContext = oblate.LoadContext
DumpContext = oblate.DumpContext
UNSET = '<unset>'


class Invalid(Exception):
    """The scenario itself is not well formed (only happens while shrinking)."""
    seen = False

    def __init__(self, *args):
        super().__init__(*args)
        Invalid.seen = True     # the library may swallow it; see runner.checked


# -- exceptions ------------------------------------------------------------------

class MyVE(ValueError):
    pass


class MyAE(AssertionError):
    pass


class Both(KeyError, ValueError):
    def __str__(self):
        return str(self.args[0]) if self.args else ''


class MyFE(FieldError):
    pass


class MyExc(Exception):
    pass


class MyNotSet(oblate.FieldNotSet):
    def __init__(self, tok):
        Exception.__init__(self, tok)


class MyFrozen(oblate.FrozenError):
    def __init__(self, tok):
        Exception.__init__(self, tok)


class MyTVE(oblate.TypeValidationError):
    def __init__(self, tok):
        Exception.__init__(self, tok)


class MyBase(BaseException):
    pass


class MyKey(KeyError):
    pass


SOFT = {'ValueError': ValueError, 'AssertionError': AssertionError, 'MyVE': MyVE,
        'MyAE': MyAE, 'Both': Both, 'FieldError': FieldError, 'MyFE': MyFE,
        'UnicodeError': UnicodeError}
HARD = {'TypeError': TypeError, 'KeyError': KeyError, 'RuntimeError': RuntimeError,
        'LookupError': LookupError, 'AttributeError': AttributeError,
        'MemoryError': MemoryError, 'RecursionError': RecursionError,
        'StopIteration': StopIteration, 'KeyboardInterrupt': KeyboardInterrupt,
        'SystemExit': SystemExit, 'GeneratorExit': GeneratorExit, 'OSError': OSError,
        'IndexError': IndexError, 'NotImplementedError': NotImplementedError,
        'Exception': Exception, 'BaseException': BaseException, 'MyExc': MyExc,
        'MyBase': MyBase, 'MyKey': MyKey, 'ZeroDivisionError': ZeroDivisionError,
        'TimeoutError': TimeoutError, 'OblateException': oblate.OblateException,
        'OverflowError': OverflowError, 'EOFError': EOFError, 'StopAsyncIteration': StopAsyncIteration,
        'UserWarning': UserWarning, 'MyNotSet': MyNotSet, 'MyFrozen': MyFrozen, 'MyTVE': MyTVE,
        'ExceptionGroup': lambda tok: ExceptionGroup(tok, [ValueError(tok)]),
        'CancelledError': asyncio.CancelledError}


# -- values ----------------------------------------------------------------------

class Raw:
    """A raw value for a simulated field."""
    __slots__ = ('u', 'b', 'parent', 'key', 'spec')

    def __init__(self, u):
        self.u = u

    def __repr__(self):
        return 'Raw(%s)' % self.u


class VInt(int):
    pass


class VStr(str):
    pass


class VFloat(float):
    pass


class VList(list):
    pass


class VSet(set):
    pass


class VTuple(tuple):
    pass


class VDict(dict):
    pass


class StObj:
    """A context state that is an ordinary object."""

    world = None

    def __init__(self, d):
        self.__dict__.update(d)

    def __copy__(self):
        w = StObj.world
        if w is not None and simsched.current is not None:
            fr = w.frame()
            w.stage({'copy': fr.op.get('sx', ()) if fr is not None and fr.op['op'] == 'copy' else ()}, 'copy')
        return StObj(self.__dict__)


class Loaded:
    __slots__ = ('raw', 'field')

    world = None

    def __init__(self, raw, field):
        self.raw = raw
        self.field = field

    def __repr__(self):
        w = Loaded.world
        fr = w.frame() if w is not None and simsched.current is not None else None
        if fr is not None and fr.op['op'] == 'repr' and not fr.mute and not fr.shown:
            fr.shown = True
            w.stage({'repr': fr.op.get('rx', ())}, 'repr', schema=fr.inst)
        return 'Loaded(%r)' % (self.raw,)


class Dumped:
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return 'Dumped(%r)' % (self.value,)


class DefaultVal:
    __slots__ = ('fid', 'serial')

    def __init__(self, fid, serial):
        self.fid = fid
        self.serial = serial

    def __repr__(self):
        return 'Default(%s)' % self.fid


class FalsyDefault(DefaultVal):
    def __bool__(self):
        return False


class SpyMapping(collections.abc.Mapping):
    """A user mapping whose iteration can fail and is a scheduling point."""

    def __init__(self, items, w):
        self._d = dict(items)
        self._w = w
        self._fired = set()

    def __getitem__(self, k):
        return self._d[k]

    def __len__(self):
        return len(self._d)

    def _begin(self):
        if self._d and 'items:0' not in self._fired:
            self._fired.add('items:0')
            self._w.stage(self.b, 'items:0')

    def items(self):
        self._begin()
        return super().items()

    def keys(self):
        self._begin()
        return super().keys()

    def __iter__(self):
        for n, k in enumerate(list(self._d)):
            st = 'items:%d' % n
            if st not in self._fired:
                self._fired.add(st)
                self._w.stage(self.b, st)
            yield k
        if 'items:end' not in self._fired:
            self._fired.add('items:end')
            self._w.stage(self.b, 'items:end')


class VCo:
    """An object that a lenient field converts; the conversion is user code."""
    __slots__ = ('u', 'b', 'parent', 'key', 'spec', 'x', 'done')
    world = None

    def __init__(self, x):
        self.x = x
        self.done = False

    def conv(self, t):
        if not self.done and simsched.current is not None and VCo.world is not None:
            self.done = True
            VCo.world.stage(self.b, 'co')
        return t(self.x)

    def __int__(self):
        return self.conv(int)

    def __float__(self):
        return self.conv(float)

    def __str__(self):
        return self.conv(str)

    def __repr__(self):
        return 'VCo(%s)' % self.u


VTYPES = (VCo, Raw, VInt, VStr, VFloat, VList, VSet, VTuple, VDict, SpyMapping)
NOBEH = {}


def beh_of(v):
    if isinstance(v, Loaded):
        v = v.raw
    if isinstance(v, VTYPES):
        return v.b
    return NOBEH


def canon(x):
    if x is None or x is UNSET:
        return x
    if isinstance(x, bool):
        return ['bool', x]
    if isinstance(x, int):
        return ['int', int(x)]
    if isinstance(x, float):
        return ['float', repr(float(x))]
    if isinstance(x, str):
        return ['str', str.__str__(x)]
    if isinstance(x, Loaded):
        return ['L', x.raw.u if isinstance(x.raw, Raw) else canon(x.raw)]
    if isinstance(x, Raw):
        return ['R', x.u]
    if isinstance(x, Dumped):
        return ['D', canon(x.value)]
    if isinstance(x, DefaultVal):
        return ['dv', x.fid]
    if isinstance(x, StObj):
        return ['stobj', canon(vars(x))]
    if isinstance(x, list):
        return ['list', [canon(i) for i in x]]
    if isinstance(x, tuple):
        return ['tuple', [canon(i) for i in x]]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted((canon(i) for i in x), key=lambda c: json.dumps(c, sort_keys=True))]
    if isinstance(x, Schema):
        return canon_inst(x)
    if isinstance(x, collections.abc.Mapping):
        d = x._d if isinstance(x, SpyMapping) else x
        return ['dict', sorted(([canon_key(k), canon(v)] for k, v in d.items()),
                               key=lambda c: json.dumps(c, sort_keys=True))]
    return ['obj', type(x).__name__]


def canon_key(k):
    if isinstance(k, str):
        return str.__str__(k)
    return ['key', repr(k)]


def canon_inst(x):
    out = {}
    cls = type(x)
    for n in cls.__w_fields__:
        try:
            out[n] = canon(x.get_value_for(n, UNSET))
        except BaseException as e:
            out[n] = ['err', type(e).__name__]
    return ['I', cls.__name__, out]


def report_of(raw):
    """Flattens ValidationError.raw() into [[path, message], ...]."""
    out = []

    def walk(d, path):
        if not isinstance(d, dict):
            out.append([path, '?not-a-dict:%r' % (d,)])
            return
        for k, msgs in d.items():
            p = path + [canon_key(k)]
            if not isinstance(msgs, list):
                out.append([p, '?not-a-list'])
                continue
            for m in msgs:
                if isinstance(m, dict):
                    walk(m, p)
                else:
                    out.append([p, m])
    walk(raw, [])
    return out


# -- frames ----------------------------------------------------------------------

class Frame:
    """One operation being executed."""
    __slots__ = ('gid', 'idx', 'op', 'inst', 'events', 'hooks', 'mute', 'env', 'dumpmap',
                 'included', 'inv', 'res', 'tops', 'ended', 'given', 'probes', 'nest', 'copies', 'state', 'kw', 'shown')

    def __init__(self, gid, idx, op, env):
        self.gid = gid
        self.idx = idx
        self.op = op
        self.env = env
        self.inst = None
        self.events = []
        self.mute = 0
        self.dumpmap = None
        self.kw = ()
        self.nest = {}
        self.included = None
        self.tops = None
        self.ended = False
        self.given = {id(i) for i in env['slots'].values() if i is not None}
        self.probes = []
        self.copies = []
        self.shown = False


class Result:
    __slots__ = ('kind', 'value', 'exc', 'report', 'state', 'events', 'intr', 'intrk', 'skipped',
                 'inst', 'slots', 'maps', 'inv', 'res', 'fault', 'text', 'nest', 'probes', 'copied')

    def __init__(self):
        self.kind = None
        self.value = None
        self.exc = None
        self.report = None
        self.state = None
        self.events = ()
        self.intr = False
        self.intrk = None
        self.inst = None
        self.inv = self.res = 0
        self.text = None
        self.nest = {}
        self.probes = ()


# -- fields ----------------------------------------------------------------------

class HookMixin:
    def value_load(self, value, context):
        return self._w.on_load(self, value, context, super().value_load)

    def value_dump(self, value, context):
        return self._w.on_dump(self, value, context, super().value_dump)


class FmtMixin:
    def format_error(self, code, context):
        return self._w.on_fmt(self, code, context)


class SimBase(F.Field):
    def value_load(self, value, context):
        return Loaded(value, self)

    def value_dump(self, value, context):
        return Dumped(value)


_KINDS = {'sim': SimBase, 'int': F.Integer, 'str': F.String, 'float': F.Float,
          'bool': F.Boolean, 'any': F.Any, 'list': F.List, 'dict': F.Dict, 'set': F.Set,
          'lit': F.Literal, 'union': F.Union, 'texpr': F.TypeExpr, 'tdict': F.TypedDict,
          'obj': F.Object}
_FCLS = {}
for _k, _c in _KINDS.items():
    _FCLS[_k, False] = type('Sim_' + _k, (HookMixin, _c), {})
    _FCLS[_k, True] = type('SimF_' + _k, (HookMixin, FmtMixin, _c), {})


class TD1(typing.TypedDict):
    a: int
    b: str


class TD2(typing.TypedDict, total=False):
    a: int
    l: list


TYPES = {'int': int, 'str': str, 'float': float, 'bool': bool, 'any': typing.Any,
         'list_int': typing.List[int], 'dict_str_int': typing.Dict[str, int],
         'u_int_str': typing.Union[int, str], 'opt_int': typing.Optional[int],
         'tup': typing.Tuple[int, str], 'set_int': typing.Set[int],
         'seq_int': typing.Sequence[int],
         'lit_ab': typing.Literal['a', 'b'], 'td1': TD1, 'td2': TD2,
         'list_td1': typing.List[TD1], 'dict_list': typing.Dict[str, typing.List[int]]}


class World:
    def __init__(self, scn):
        self.scn = scn
        StObj.world = VCo.world = Loaded.world = self
        self.classes = {}
        self.duals = {}
        self.ctors = set()       # instances whose own __init__ ran
        self.vobjs = {}          # validator id -> registered object
        self.sobjs = {}          # shared field objects
        self.notes = []
        self.groups = {}         # group id -> list of executions (list of Result)
        self.by_map = {}         # mapping uid -> instance
        self.keep = []
        self.built = {}          # every mapping given to the library, by identity
        self.hard = {}           # token -> the exception object raised
        self.fe_state = {}
        self.serial = 0
        self.faults = {}
        self.flex = set(scn.get('flex', ()))
        self.sched = None
        self.nested_cap = 3
        self.err_cls = oblate.ValidationError
        self.observers = []
        self.wasting = False
        self.registry = {}       # changes of validators while operations run
        self.ticks = 0

    def forget(self):
        """Lets go of everything the operations were given and gave."""
        for x in (self.keep, self.groups, self.by_map, self.built, self.hard, self.fe_state, self.notes, self.ctors,
                  self.registry, self.specs):
            x.clear()
        self.sched = None

    # -- bookkeeping --------------------------------------------------------------

    def task(self):
        return self.sched.cur

    def frame(self):
        fs = self.sched.cur.frames
        return fs[-1] if fs else None

    def note(self, aspect, msg):
        fr = self.frame()
        self.notes.append([aspect, msg, fr.gid if fr else None, fr.idx if fr else None])

    def count(self, what):
        self.faults[what] = self.faults.get(what, 0) + 1

    # -- building -----------------------------------------------------------------

    def build(self):
        ec = self.scn.get('errcls')
        if ec:
            self.err_cls = type('CustomVE', (oblate.ValidationError,), {})
            oblate.config.validation_error_cls = self.err_cls
        for spec in self.scn['classes']:
            self.build_class(spec)

        def refuse(schema, value, context):
            raise ValueError(value)
        self.aux = type(Schema)('Aux', (Schema,), {'aux': F.Any(validators=[refuse])})

    def validator(self, spec):
        """The callable to register for a validator spec (the same one per id)."""
        vid = spec['id']
        if vid in self.vobjs:
            return self.vobjs[vid]
        kind = spec['kind']
        raw = bool(spec.get('raw'))
        w = self
        if spec.get('dual'):
            # one function, registered both as a raw and as a normal validator
            pair = self.duals.setdefault(spec['dual'], {})
            pair[raw] = spec
            if 'fn' not in pair:
                def v(schema, value, context):
                    return w.on_val(pair.get(value is context.value) or spec, schema, value, context)
                v.__name__ = v.__qualname__ = 'v_' + spec['dual']
                pair['fn'] = v
            v = pair['fn']
        elif kind == 'fn':
            def v(schema, value, context):
                return w.on_val(spec, schema, value, context)
            v.__name__ = v.__qualname__ = 'v_' + vid
        elif kind == 'obj':
            def vv(self, value, context):
                return w.on_val(spec, None, value, context)
            cls = type(VD.Validator)('V_' + vid, (VD.Validator,), {'validate': vv}, raw=raw)
            v = cls()
        elif kind == 'range':
            v = VD.Range(*spec['args'])
        elif kind == 'length':
            v = VD.Length(**spec['args'])
        elif kind == 'regex':
            v = VD.Regex(spec['args'][0], **(spec['args'][1] if len(spec['args']) > 1 else {}))
        elif kind == 'exclude':
            v = VD.Exclude(*spec['args'])
        elif kind == 'or':
            v = VD.Or(*[self.validator(s) for s in spec['subs']])
        else:
            raise Invalid(kind)
        self.vobjs[vid] = v
        return v

    def build_field(self, cname, fs):
        kind = fs['kind']
        kw = {}
        for a, b in (('none', 'none'), ('frozen', 'frozen')):
            if fs.get(a):
                kw[b] = True
        if fs.get('req') is False:
            kw['required'] = False
        if 'lk' in fs and 'dk' in fs and fs['lk'] == fs['dk'] and fs.get('data_key'):
            kw['data_key'] = fs['lk']
        else:
            if 'lk' in fs:
                kw['load_key'] = fs['lk']
            if 'dk' in fs:
                kw['dump_key'] = fs['dk']
        d = fs.get('dflt')
        if d is not None:
            kw['default'] = self.default_fn(cname, fs, d['fn'], d.get('ret')) if d.get('fn') else self.plain(d['val'])
        vals = fs.get('vals', ())
        init = [self.validator(v) for v in vals if v['via'] == 'init']
        if init:
            kw['validators'] = init
        args = []
        if kind in ('int', 'str', 'float', 'bool') and not fs.get('strict', True):
            kw['strict'] = False
        elif kind == 'obj':
            args = [self.cls(fs['cls'])]
            if fs.get('ik'):
                kw['init_kwargs'] = {k: self.plain(v) for k, v in fs['ik'].items()}
        elif kind in ('list', 'set', 'dict', 'union', 'texpr', 'tdict'):
            args = [TYPES[t] for t in fs.get('targs', ())]
        elif kind == 'lit':
            args = list(fs['targs'])
        f = _FCLS[kind, fs.get('fmt') is not None](*args, **kw)
        f._w = self
        f._fs = fs
        for v in vals:
            if v['via'] == 'add':
                f.add_validator(self.validator(v), raw=bool(v.get('raw')))
        return f

    def cls(self, name):
        try:
            return self.classes[name]
        except KeyError:
            raise Invalid('class ' + str(name))

    def build_class(self, spec):
        w = self
        attrs = {'__module__': 'scenario', '__qualname__': spec['name']}
        if spec.get('helper'):
            # classes and functions in the body that mean nothing to the library
            attrs['Helper'] = type('Helper', (), {'frozen': True, 'ignore_extra': True, 'add_repr': False})
            attrs['helper'] = lambda self: None
        if spec.get('own_repr'):
            def __repr__(self):
                have = [(n, self.get_value_for(n, UNSET)) for n in type(self).__w_fields__]
                return 'own:%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % x for x in have if x[1] is not UNSET))
            attrs['__repr__'] = __repr__
        fobjs = {}
        for fs in spec['fields']:
            if fs.get('copy_of'):
                c, n = fs['copy_of']
                src = getattr(self.cls(c), n)
                f = src.copy()
                f._fs = dict(src._fs, **fs)
                for v in fs.get('vals', ()):
                    if v['via'] == 'add':
                        f.add_validator(self.validator(v), raw=bool(v.get('raw')))
            else:
                f = self.build_field(spec['name'], fs)
            fobjs[fs['n']] = f
            attrs[fs['n']] = f
        for fs in spec['fields']:
            for v in fs.get('vals', ()):
                if v['via'] in ('deco', 'decostr'):
                    target = fobjs[fs['n']] if v['via'] == 'deco' else fs['n']
                    fn = self.validator(v)
                    attrs['m_' + v['id']] = VD.field(target, raw=bool(v.get('raw')))(fn)
        for x in spec.get('xvals', ()):           # validators for inherited fields
            v = x['v']
            attrs['m_' + v['id']] = VD.field(x['f'], raw=bool(v.get('raw')))(self.validator(v))
        cfg = spec.get('config')
        if cfg is not None:
            attrs['Config'] = type('Config', (oblate.SchemaConfig,), dict(cfg))
        if spec.get('pre'):
            mode = spec['pre']

            def preprocess_data(self, data):
                return w.on_pre(mode, self, data)
            attrs['preprocess_data'] = preprocess_data
        if spec.get('post'):
            def __schema_post_init__(self):
                return w.on_post(self)
            attrs['__schema_post_init__'] = __schema_post_init__
        if spec.get('ctor'):
            def __init__(self, data, /, **kw):
                if w.wasting:
                    return super(cls, self).__init__(data, **kw)
                simsched.point('ctor')
                w.ctors.add(id(self))
                w.keep.append(self)
                super(cls, self).__init__(data, **kw)
            attrs['__init__'] = __init__
        bases = tuple(self.cls(b) for b in spec.get('bases', ())) or (Schema,)
        cls = type(Schema)(spec['name'], bases, attrs)
        cls.__w_ctor__ = bool(spec.get('ctor')) or any(getattr(b, '__w_ctor__', False) for b in bases)
        inherited = []
        for b in bases:
            for n in getattr(b, '__w_fields__', ()):
                if n not in inherited:
                    inherited.append(n)
        for fs in spec['fields']:
            if fs['n'] not in inherited:
                inherited.append(fs['n'])
        cls.__w_fields__ = tuple(inherited)
        # None: a parent defines it, which of the two is used is left open
        cls.__w_repr__ = True if spec.get('own_repr') else False if all(b is Schema or b.__w_repr__ is False for b in bases) else None
        cls.__w_pre__ = bool(spec.get('pre')) or any(getattr(b, '__w_pre__', False) for b in bases)
        for n in cls.__w_fields__:
            NAMES[id(getattr(cls, n))] = n
        self.classes[spec['name']] = cls
        return cls

    def default_fn(self, cname, fs, kind, ret=None):
        w = self
        fid = cname + '.' + fs['n']

        def default(context, field):
            return w.on_default(fid, context, field, ret)
        if kind == 'cls':
            return type('DefaultCls', (), {'__new__': lambda cls, context, field: default(context, field)})
        if kind == 'partial':
            return functools.partial(lambda w_, context, field: default(context, field), w)
        if kind == 'method':
            return type('H', (), {'m': lambda self, context, field: default(context, field)})().m
        if kind == 'obj':
            return type('Callable', (), {'__call__': lambda self, context, field: default(context, field)})()
        if kind == 'static':
            return type('H', (), {'m': classmethod(lambda cls, context, field: default(context, field))}).m
        return default

    # -- values -------------------------------------------------------------------

    def plain(self, x):
        """A plain Python value from JSON (tuples, sets and int keys are tagged)."""
        if isinstance(x, dict):
            if '$t' in x:
                return tuple(self.plain(i) for i in x['$t'])
            if '$o' in x:
                return StObj({k: self.plain(v) for k, v in x['$o'].items()})
            if '$set' in x:
                return {self.plain(i) for i in x['$set']}
            if '$d' in x:
                return {self.plain(k): self.plain(v) for k, v in x['$d']}
            return {k: self.plain(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.plain(i) for i in x]
        return x

    def value(self, spec, env, parent=None, key=None):
        if not isinstance(spec, dict):
            return spec
        if 'i' in spec and 'm' in spec:
            return self.mapping(spec, env, parent, key)
        if '$i' in spec:
            v = env['slots'].get(spec['$i'])
            if v is None:
                v = {}
                self.built[id(v)] = v
            return v
        if '$s' in spec:
            v = Raw(spec['u'])
        else:
            t = spec['$v']
            x = self.plain(spec['x'])
            if t == 'plain':
                return x
            v = {'int': VInt, 'str': VStr, 'float': VFloat, 'list': VList, 'set': VSet,
                 'tuple': VTuple, 'dict': VDict, 'co': VCo}[t](x)
        v.u = spec['u']
        v.b = spec.get('b') or NOBEH
        v.parent = parent
        v.key = key
        v.spec = spec
        return v

    def mapping(self, spec, env, parent=None, key=None, mode='new'):
        kind = spec['m']
        m = VDict() if kind == 'dict' else ({} if kind == 'plain' else SpyMapping((), self))
        if kind != 'plain':
            m.u = spec['u']
            m.b = spec.get('b') or NOBEH
            m.parent = parent
            m.key = key
            m.spec = spec
            m.mode = mode
        d = m._d if kind == 'spy' else m
        for k, vs in spec['i']:
            k = self.plain(k)
            d[k] = self.value(vs, env, m if kind != 'plain' else None, k)
        self.built[id(m)] = m
        return m

    def owner(self, v):
        """The instance that must be processing raw value v, if known; and its mode."""
        p = getattr(v, 'parent', None)
        if p is None:
            return None, None
        if p == 'set':
            return self.frame().inst, 'upd'
        return getattr(p, 'inst', None), p.mode

    # -- stages -------------------------------------------------------------------

    def stage(self, beh, st, schema=None, field=None, ctx=None, value=None):
        simsched.point(st)
        acts = beh.get(st)
        opened = self.task().open
        if opened:
            self.recheck(opened[-1])
        if acts:
            if ctx is None:
                for a in acts:
                    self.action(a, st, schema, field, ctx, value)
                return
            mine = (st, ctx, self.quiet(ctx_view, ctx))
            opened.append(mine)
            try:
                for a in acts:
                    self.action(a, st, schema, field, ctx, value)
                self.recheck(mine)
            finally:
                opened.pop()

    def recheck(self, entry):
        """What a context says is the same as long as its callback runs."""
        st, ctx, view = entry
        now = self.quiet(ctx_view, ctx)
        if len(now) != len(view) or any(a is not b and a != b if isinstance(a, frozenset) else a is not b
                                        for a, b in zip(now, view)):
            self.note('vctx', 'the context given to %s changed while the callback ran' % st)

    def ev(self, *e):
        fr = self.frame()
        if fr is not None:
            fr.events.append(e)

    def action(self, a, st, schema, field, ctx, value):
        k = a['a']
        if k == 'raise':
            self.do_raise(a, st)
        elif k == 'run':
            self.count('reentrant:' + a['how'])
            self.run_nested(a)
        elif k == 'probe':
            self.probe(st, schema, field, ctx)
        elif k == 'read':
            at = self.sched.step
            try:
                got = schema.get_value_for(a['f'], UNSET)
                got = self.quiet(canon, got)
            except Exception as e:
                got = ['err', type(e).__name__]
            self.ev('read', a['id'], got)
            if self.frame() is not None:
                self.frame().probes.append([a['f'], got, at, self.sched.step])
        elif k == 'readattr':
            try:
                getattr(schema, a['f'])
            except oblate.FieldNotSet as e:
                self.ev('readattr', a['id'], 'notset')
            except Exception as e:
                self.ev('readattr', a['id'], type(e).__name__)
            else:
                self.ev('readattr', a['id'], 'value')
        elif k == 'readdump':
            self.count('dump of an instance in use')
            self.ev('readdump', a['id'], self.dump_one(schema, a['f']))
        elif k == 'readrepr':
            self.count('repr of an instance in use')
            self.ev('readrepr', a['id'], self.show_one(schema, a['via'], a.get('how')))
        elif k == 'selfset':
            try:
                setattr(schema, a['f'], self.value(a['v'], self.frame().env, 'set', None))
            except oblate.FrozenError as e:
                self.ev('selfset', a['id'], 'frozen')
            except oblate.ValidationError:
                self.ev('selfset', a['id'], 'verr')
            else:
                self.ev('selfset', a['id'], 'ok')
        elif k == 'selfupd':
            self.count('update of an instance in use')
            m = self.mapping(a['m'], self.frame().env, None, None, 'upd')
            self.by_map[m.u] = m.inst = schema
            try:
                schema.update(m, ignore_extra=False)
            except oblate.FrozenError:
                self.ev('selfset', a['id'], 'frozen')
            except oblate.ValidationError:
                self.ev('selfset', a['id'], 'verr')
            else:
                self.ev('selfset', a['id'], 'ok')
        elif k == 'copyset':
            self.copyset(a, schema)
        elif k == 'stall':
            me = self.task()
            self.count('stalled callback')
            me.stalled = True
            self.sched.block(lambda: all(t.done or t.stalled for t in self.sched.tasks))
            me.stalled = False
        elif k == 'churn':
            f = getattr(self.cls(a['f'][0]), a['f'][1])
            v = self.vobjs.get(a['vid']) or self.validator(a['v'])
            self.count('registry:' + a['w'])
            if a['w'] == 'rm':
                self.register(f, v, a, -1)
            elif a['w'] == 'add':
                if not self.quiet(self.registered, f, v, a):
                    self.register(f, v, a, 1)
            elif a['w'] == 'rmadd':
                self.register(f, v, a, -1)
                simsched.point('churn')
                self.register(f, v, a, 1)
        else:
            raise Invalid(k)

    def registered(self, f, v, a):
        return sum(x is v for x in f.walk_validators(raw=a['raw']))

    def register(self, f, v, a, d):
        """Adds or removes a validator, and remembers when."""
        k = id(f), id(v), a['raw']
        if k not in self.registry:
            self.registry[k] = [f, v, a, self.quiet(self.registered, f, v, a), []]
        self.ticks += 1
        rec = [self.ticks, None, d]
        self.registry[k][4].append(rec)
        if d > 0:
            f.add_validator(v, raw=a['raw'])
        else:
            f.remove_validator(v, raw=a['raw'])
        self.ticks += 1
        rec[1] = self.ticks

    def check_registry(self):
        """In the end exactly the validators are registered that some order of the changes leaves."""
        for f, v, a, n, recs in self.registry.values():
            if any(x[1] is None for x in recs) or len(recs) > 40:
                continue
            seen = {(frozenset(range(len(recs))), n)}
            todo = list(seen)
            ends = set()
            while todo and len(seen) < 5000:
                left, c = todo.pop()
                if not left:
                    ends.add(c)
                first = min((recs[i][1] for i in left), default=0)
                for i in left:
                    if recs[i][0] < first or recs[i][1] == first:
                        y = left - {i}, max(0, c + recs[i][2])
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
            got = self.registered(f, v, a)
            if not todo and got not in ends:
                self.notes.append(['registry', 'validator %s is registered %d times on %s in the end, not %s'
                                   % (a['vid'], got, fname(f), sorted(ends)), None, None])

    def copyset(self, a, schema):
        """Copies the schema being processed and assigns to the copy."""
        self.count('copy of an instance in use')
        before = self.quiet(self.tokens, schema)
        c = schema.copy()
        self.keep.append(c)
        if c is schema or type(c) is not type(schema):
            self.note('copy', 'copy() gave %s' % desc(c))
            return
        if self.quiet(self.tokens, c) != before:
            self.note('copy', 'a copy made in a callback differs from the original')
        if not self.quiet(same_values, schema, c):
            self.note('copy', 'a copy made in a callback holds equal values, but not the same objects')
        try:
            ctx, st, st0 = c.context, c.context.state, schema.context.state
            if ctx is schema.context or ctx.schema is not c:
                self.note('copy', 'the context of a copy made in a callback is not its own')
            elif isinstance(st0, (dict, list, StObj)) and st is st0 or not same_parts(st0, st):
                self.note('copy', 'the context state of a copy made in a callback is not a shallow copy')
            if not ctx.is_initialized():
                self.note('copy', 'a copy made in a callback is not initialized')
        except Exception as e:
            self.note('copy', 'the context of a copy made in a callback: %s' % short_exc(e))
        try:
            setattr(c, a['f'], self.value(a['v'], self.frame().env))
        except oblate.FrozenError:
            self.ev('copyset', a['id'], 'frozen')
        except oblate.ValidationError:
            self.ev('copyset', a['id'], 'verr')
        else:
            self.ev('copyset', a['id'], 'ok')
        if self.quiet(self.tokens, schema) != before:
            self.note('copy', 'an assignment to a copy made in a callback changed the original')
        self.frame().copies.append((c, self.quiet(self.tokens, c)))

    def do_raise(self, a, st):
        e = a['e']
        self.count(('soft:' if a.get('soft') else 'hard:') + e + '@' + st.split(':')[0])
        if e == 'Reuse':
            # a failure that another schema reported is passed on as it is
            try:
                self.aux({'aux': a['tok']})
            except oblate.ValidationError as x:
                err = x.errors[0]
            raise err
        if a.get('soft'):
            cls = SOFT[e]
            if issubclass(cls, FieldError):
                msg = a['msgs']
                if a.get('mt') == 'tuple':
                    msg = tuple(msg)
                elif a.get('mt') == 'set':
                    msg = set(msg)
                elif a.get('mt') == 'str':
                    msg = msg[0]
                if a.get('state') is not None:
                    raise cls(msg, a['state'])
                raise cls(msg)
            if a.get('empty'):
                raise cls()
            raise cls(a['tok'])
        exc = HARD[e](a['tok'])
        self.hard.setdefault(a['tok'], []).append(exc)
        raise exc

    def probe(self, st, schema, field, ctx):
        try:
            e = FieldError('probe')
        except Exception as x:
            self.note('attr', 'creating a FieldError in %s raised %r' % (st, x))
            return
        if schema is not None and e.schema is not schema:
            self.note('attr', 'schema of a FieldError created in %s is %s, not the %s being processed'
                      % (st, desc(e.schema), desc(schema)))
        if field is not None:
            if e.key != field.load_key:
                self.note('attr', 'key of a FieldError created in %s for %r is %r' % (st, field.load_key, e.key))
            else:
                try:
                    f = e.field
                except Exception as x:
                    f = x
                if schema is None or e.schema is schema:
                    if f is not field:
                        self.note('attr', 'field of a FieldError created in %s is %r' % (st, f))
        if ctx is not None and e.context is not ctx:
            self.note('attr', 'context of a FieldError created in %s is %s, not the one given to the callback'
                      % (st, desc(e.context)))

    def run_nested(self, a):
        how = a['how']
        if len(self.task().frames) >= self.nested_cap:
            return
        if how == 'same':
            self.run_prog(a['prog'])
        elif how == 'copy':
            contextvars.copy_context().run(self.run_prog, a['prog'])
        else:
            contextvars.Context().run(self.run_prog, a['prog'])

    # -- callbacks ----------------------------------------------------------------

    def check_loadctx(self, st, ctx, value_raw, schema):
        own, mode = self.owner(value_raw)
        if type(ctx) is not LoadContext:
            self.note('vctx', '%s got a %s' % (st, type(ctx).__name__))
            return
        if ctx.value is not value_raw:
            self.note('vctx', '%s: context.value is %r, not the raw value %r' % (st, ctx.value, value_raw))
        if own is not None:
            if ctx.schema is not own:
                self.note('vctx', '%s: context.schema is %s, not the %s being loaded' % (st, desc(ctx.schema), desc(own)))
            if schema is not None and schema is not own:
                self.note('vctx', '%s: got schema %s, not the %s being loaded' % (st, desc(schema), desc(own)))
        elif schema is not None and ctx.schema is not schema:
            self.note('vctx', '%s: context.schema is %s, not %s' % (st, desc(ctx.schema), desc(schema)))
        if mode is not None:
            if ctx.schema.context.is_initialized() is not (mode == 'upd'):
                self.note('life', '%s: is_initialized() is %r in %s' % (st, mode != 'upd', mode))
            upd = ctx.is_update()
            if upd is not (mode == 'upd'):
                self.note('vctx', '%s: is_update() is %r in %s' % (st, upd, mode))
        k = getattr(value_raw, 'key', None)
        if k is not None and ctx.field.load_key != k:
            self.note('vctx', '%s: context.field is %r while loading %r' % (st, ctx.field.load_key, k))

    def subject(self, value, ctx):
        """Identifies the instance whose construction loads the value."""
        return None if self.owner(value)[1] == 'upd' else id(ctx.schema)

    def on_load(self, field, value, ctx, sup):
        if self.wasting:
            return sup(value, ctx)
        st = 'load'
        self.ev('load', fname(field), canon_raw(value), self.subject(value, ctx), type(ctx.schema).__name__)
        if ctx.field is not field:
            self.note('vctx', 'load: context.field is %r, not %r' % (fname(ctx.field), fname(field)))
        self.check_loadctx(st, ctx, value, None)
        s = ctx.state
        if 'ld' in s:
            self.note('vctx', 'load of %r sees state of another load' % (fname(field),))
        u = getattr(value, 'u', None)
        s['ld'] = u
        self.stage(beh_of(value), st, ctx.schema, field, ctx, value)
        return sup(value, ctx)

    def on_val(self, spec, schema, value, ctx):
        if self.wasting:
            return
        raw = bool(spec.get('raw'))
        kind = 'raw' if raw else 'val'
        vid = spec['id']
        st = kind + ':' + vid
        rv = ctx.value
        if not raw and isinstance(value, Loaded):
            rv = value.raw
            if ctx.field is not value.field:
                self.note('vctx', '%s: context.field is %r for a value of %r' % (st, fname(ctx.field), fname(value.field)))
        elif raw:
            rv = value
        own, mode = self.owner(rv)
        self.ev(kind, vid, canon_raw(value) if raw else self.quiet(canon, value), self.subject(rv, ctx), type(ctx.schema).__name__,
                canon_raw(rv))
        self.check_loadctx(st, ctx, rv, schema)
        s = ctx.state
        u = getattr(rv, 'u', None)
        if raw:
            if 'ld' in s and s['ld'] != u:
                self.note('vctx', '%s sees load state of another value' % st)
        elif s.get('ld', 0) != u:
            self.note('vctx', '%s does not see the state written by the load of its value' % st)
        if value is None:
            a = spec.get('on_none')
            simsched.point(st)
            if a:
                self.action(a, st, ctx.schema, ctx.field, ctx, value)
            return
        self.stage(beh_of(rv), st, own if own is not None else ctx.schema, ctx.field, ctx, value)

    def on_dump(self, field, value, ctx, sup):
        fr = self.frame()
        if self.wasting or fr is not None and fr.mute:
            return sup(value, ctx)
        self.ev('dump', fname(field), self.quiet(canon, value), id(ctx.schema), type(ctx.schema).__name__)
        if type(ctx) is not DumpContext:
            self.note('vctx', 'dump got a %s' % type(ctx).__name__)
        else:
            if ctx.field is not field:
                self.note('vctx', 'dump: context.field is %r, not %r' % (fname(ctx.field), fname(field)))
            if ctx.value is not value:
                self.note('vctx', 'dump: context.value is not the value given')
            if fr is not None and fr.dumpmap is not None:
                ok = fr.dumpmap.get((id(field), id(value)))
                if ok is not None and not any(ctx.schema is s for s in ok):
                    self.note('vctx', 'dump: context.schema is %s, not the one dumped' % desc(ctx.schema))
                if ctx.schema is fr.inst and fr.included is not None:
                    if set(ctx.included_fields) != fr.included:
                        self.note('vctx', 'dump: included_fields is %r, not %r'
                                  % (sorted(ctx.included_fields), sorted(fr.included)))
            if 'dm' in ctx.state:
                self.note('vctx', 'dump of %r sees state of another dump' % fname(field))
            ctx.state['dm'] = 1
        st = 'dump'
        if fr is not None and fr.op.get('h') and ctx.schema is fr.inst:
            self.stage({'dump': fr.op['h'].get(fname(field), ())}, st, ctx.schema, field, ctx, value)
        self.stage(beh_of(value), st, ctx.schema, field, ctx, value)
        return sup(value, ctx)

    def on_fmt(self, field, code, ctx):
        if self.wasting:
            return 'fmt'
        simsched.point('fmt')
        if ctx.field is not field:
            self.note('vctx', 'format_error: context.field is %r' % (fname(ctx.field),))
        if ctx.error_code != code:
            self.note('vctx', 'format_error: error_code differs')
        self.probe('fmt', ctx.schema, field, None)
        req = fmt_code(code) == 'field_required'
        try:
            v = ctx.get_value()
        except ValueError:
            if not req:
                self.note('vctx', 'format_error: no value for %s' % code)
        else:
            if req:
                self.note('vctx', 'format_error: a value for %s' % code)
            rv = v.raw if isinstance(v, Loaded) else v
            own, _ = self.owner(rv)
            if own is not None and ctx.schema is not own:
                self.note('vctx', 'format_error: schema is %s, not the one being loaded' % desc(ctx.schema))
            key = getattr(rv, 'key', None)
            if key is not None and field.load_key != key:
                self.note('vctx', 'format_error: the value of %r for an error of %r' % (key, field.load_key))
            if (v is None) != (fmt_code(code) == 'none_disallowed') and fmt_code(code) != 'validation_failed':
                self.note('vctx', 'format_error: value %s for %s' % (desc(v), code))
        if type(ctx.schema).__dict__.get(fname(field)) is not field and getattr(type(ctx.schema), fname(field), None) is not field:
            self.note('vctx', 'format_error: schema is %s, which lacks the field' % desc(ctx.schema))
        md = ctx.metadata
        if not isinstance(md, dict) or 'seen' in md:
            self.note('vctx', 'format_error: metadata is %s' % ('that of another failure' if isinstance(md, dict) else desc(md)))
        else:
            if fmt_code(code) == 'type_validation_failed' and not md.get('type_validation_fail_errors'):
                self.note('vctx', 'format_error: no metadata for a failed type validation')
            md['seen'] = 1
        mode = field._fs['fmt']
        if mode == 'none':
            return None
        if mode == 'bad':
            self.count('format_error gives no error')
            return 5
        code = fmt_code(code)
        if mode == 'partial' and code not in ('none_disallowed', 'field_required'):
            return None
        if mode == 'err':
            return FieldError('fmt:' + code, 'fs:' + code)
        return 'fmt:' + code

    def on_pre(self, mode, schema, data):
        if self.wasting:
            return data
        u = getattr(data, 'u', None)
        self.keep.append(schema)
        if type(schema).__w_ctor__ and id(schema) not in self.ctors:
            self.note('ctor', 'the constructor of %s was not called' % type(schema).__name__)
        self.ev('pre', u, id(schema), type(schema).__name__)
        if u is not None:
            if data.mode == 'upd':
                self.note('life', 'preprocess_data called during an update')
        if isinstance(data, (dict, SpyMapping)) and self.built.get(id(data)) is not data:
            self.note('life', 'preprocess_data was given another mapping than the one passed by the caller')
        if u is not None:
            self.by_map[u] = schema
            data.inst = schema
            fr = self.frame()
            if fr.tops is not None and u in fr.tops and fr.tops[u] is not data:
                self.note('life', 'preprocess_data was not given the mapping passed by the caller')
        if schema.context.is_initialized():
            self.note('life', 'is_initialized() is true in preprocess_data')
        if schema.context.schema is not schema:
            self.note('vctx', 'context.schema is not the schema in preprocess_data')
        simsched.point('pre')
        for a in beh_of(data).get('pre', ()):
            if a['a'] == 'nonmap':
                self.count('preprocess_data gives no mapping')
                return self.plain(a['v'])
            self.action(a, 'pre', schema, None, None, data)
        if mode == 'rebuild' and isinstance(data, VDict):
            d = VDict(data)
            d.u, d.b, d.parent, d.key, d.spec, d.mode = data.u, data.b, data.parent, data.key, data.spec, data.mode
            return d
        if mode == 'plain' and isinstance(data, collections.abc.Mapping) and isinstance(data, VDict):
            return dict(data)
        if mode == 'proxy' and isinstance(data, VDict):
            return types.MappingProxyType(data)
        if mode == 'drop' and isinstance(data, VDict) and '__empty__' in data:
            return {}
        if mode == 'drop' and isinstance(data, VDict):
            d = VDict((k, v) for k, v in data.items() if k != '__drop__')
            d.u, d.b, d.parent, d.key, d.spec, d.mode = data.u, data.b, data.parent, data.key, data.spec, data.mode
            return d
        return data

    def on_post(self, schema):
        if self.wasting:
            return
        self.ev('post', id(schema), type(schema).__name__)
        if not schema.context.is_initialized():
            self.note('life', 'is_initialized() is false in __schema_post_init__')
        simsched.point('post')
        for u, s in self.by_map.items():
            if s is schema:
                spec = self.map_spec(u)
                for a in (spec.get('b') or NOBEH).get('post', ()):
                    self.action(a, 'post', schema, None, None, None)
                break

    def on_default(self, fid, ctx, field, ret):
        if self.wasting:
            return DefaultVal(fid, 0)
        self.serial += 1
        dv = None if ret == 'none' else (FalsyDefault if ret == 'falsy' else DefaultVal)(fid, self.serial)
        schema = getattr(ctx, 'schema', None)
        self.keep.append(schema)
        self.ev('def', fid, self.serial, id(schema), type(schema).__name__)
        if type(ctx) is not oblate.SchemaContext:
            self.note('default', 'default callable got a %s' % type(ctx).__name__)
        else:
            if schema.context is not ctx:
                self.note('default', "default callable did not get its schema's context")
            if getattr(type(schema), fname(field), None) is not field:
                self.note('default', 'default callable got another field than that of its schema')
            if ctx.is_initialized():
                self.note('life', 'is_initialized() is true in a default callable')
        simsched.point('def')
        for u, s in list(self.by_map.items()):
            if s is schema:
                spec = self.map_spec(u)
                for a in (spec.get('b') or NOBEH).get('def:' + fname(field), ()):
                    self.action(a, 'def', schema, field, None, None)
                break
        return dv

    def map_spec(self, u):
        return self.specs[u]

    # -- operations ---------------------------------------------------------------

    def index_specs(self):
        self.specs = {}

        def walk(x):
            if isinstance(x, dict):
                if 'm' in x and 'i' in x and 'u' in x:
                    self.specs[x['u']] = x
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(self.scn.get('threads', ()))

    def run_prog(self, prog, env=None):
        gid = prog['g']
        env = {'slots': {}, 'gid': gid} if env is None else env
        results = []
        self.groups.setdefault(gid, []).append((results, env))
        for idx, op in enumerate(prog['ops']):
            fr = Frame(gid, idx, op, env)
            task = self.task()
            task.frames.append(fr)
            try:
                if prog.get('ctx') == 'copy' or op.get('intr'):
                    r = contextvars.copy_context().run(self.exec_op, op, fr, env)
                else:
                    r = self.exec_op(op, fr, env)
            finally:
                task.frames.pop()
            results.append(r)
            simsched.point('op')
        return results

    def run_churner(self, acts):
        """A thread that only registers and removes validators."""
        for n, a in enumerate(acts):
            fr = Frame('churner', n, {'op': 'churn'}, {'slots': {}})
            self.task().frames.append(fr)
            try:
                self.action(a, 'churn', None, None, None, None)
            finally:
                self.task().frames.pop()
            simsched.point('churn')

    def check_defaults(self, inst, fr, depth=0):
        """A default produced by a callable is stored where it belongs, and only there."""
        made = {ev[2]: ev for ev in fr.events if ev[0] == 'def'}
        for n in type(inst).__w_fields__:
            v = inst.get_value_for(n, UNSET)
            if isinstance(v, DefaultVal):
                ev = made.get(v.serial)
                if ev is None or ev[3] != id(inst):
                    self.note('default', 'the default stored in %r was not made for this instance' % n)
            elif isinstance(v, Schema) and depth < 6 and id(v) not in fr.given:
                self.check_defaults(v, fr, depth + 1)

    def quiet(self, fn, *a):
        """Runs library code for the harness's own purposes: never preempted."""
        s = simsched.current
        simsched.current = None
        try:
            return fn(*a)
        finally:
            simsched.current = s

    def tokens(self, inst):
        import engine_r
        return {n: engine_r.token(canon(inst.get_value_for(n, UNSET))) for n in type(inst).__w_fields__}

    def snapshot(self, env):
        out = {}
        for n, inst in env['slots'].items():
            if inst is None:
                continue
            c = canon_inst(inst)
            try:
                st = canon(inst.context.state)
                ini = inst.context.is_initialized()
                own = inst.context.schema is inst
                cfg = same_config(inst)
            except BaseException as e:
                st, ini, own, cfg = ['err', repr(e)], None, None, None
            out[n] = [c, st, ini, own, cfg]
        return out

    def dump_one(self, schema, name):
        """Whether a dump sees a value of the field; the callbacks do nothing meanwhile."""
        fr = self.frame()
        fr.mute += 1
        try:
            before = schema.get_value_for(name, UNSET) is UNSET
            out = 'value' if schema.dump(include=[name]) else 'notset'
            after = schema.get_value_for(name, UNSET) is UNSET
        except Exception as e:
            return type(e).__name__
        finally:
            fr.mute -= 1
        if before == after and before != (out == 'notset') and not self.scn.get('shared'):
            self.note('readdump', 'a callback finds %r %s, but dump() gives %s' % (name, 'unset' if before else 'set', out))
        return out

    def show_one(self, schema, via, how=None):
        """What printing an instance gives must fit what it holds."""
        before = self.quiet(held, schema)
        try:
            if how == 'fresh':
                ctx = contextvars.Context()
            else:
                ctx = contextvars.copy_context()
            before_ctx = dict(ctx.items())
            if how in ('fresh', 'copy'):
                text = ctx.run(SHOW[via], schema)
            else:
                text = SHOW[via](schema)
                ctx = contextvars.copy_context()
            after_ctx = dict(ctx.items())
            if not same_ctx(before_ctx, after_ctx):
                self.note('repr', 'in a callback, printing left the execution context changed: %s' % ctx_diff(before_ctx, after_ctx))
        except Exception as e:
            return short_exc(e)
        self.quiet(self.check_text, schema, text, before)
        return 'ok'

    def check_text(self, inst, text, before, what='in a callback'):
        if not isinstance(text, str) or type(inst).__name__ not in text:
            self.note('repr', '%s, the representation of a %s is %r' % (what, type(inst).__name__, text))
            return
        if type(inst).__w_repr__ is not None and text.startswith('own:') != type(inst).__w_repr__:
            self.note('repr', '%s, the representation of a %s, which %s, is %r' % (
                what, type(inst).__name__, 'defines __repr__ itself' if type(inst).__w_repr__ else 'defines no __repr__', text))
        after = held(inst)
        rest = text
        absent = []
        for n in sorted(after, key=lambda n: (-len(repr(after[n])), n)):
            have = [x for x in (before[n], after[n]) if x is not UNSET]
            segs = sorted(('%s=%s' % (n, t(x)) for x in have for t in (str, repr)), key=len, reverse=True)
            seg = next((g for g in segs if g in text), None)
            if seg is not None:
                rest = rest.replace(seg, '', 1)
            elif len(have) == 2:
                self.note('repr', '%s, the representation %r lacks %s' % (what, text, segs[0]))
            else:
                absent.append(n)
        for n in absent:
            if re.search(r'(?<!\w)%s=' % n, rest):
                self.note('repr', '%s, the representation %r shows %r, which has no value' % (what, text, n))

    def litter(self, op):
        """Makes, uses and drops instances, so that the next ones are at the addresses of dead ones."""
        def bare(spec):
            if not isinstance(spec, dict):
                return spec
            if 'i' in spec and 'm' in spec:
                return {self.plain(k): bare(v) for k, v in spec['i']}
            if '$i' in spec:
                return {}
            return 'w' if '$s' in spec else self.plain(spec['x'])
        self.wasting = True
        try:
            made = []
            cls = self.cls(op['c'])
            for n in range(op['waste']):
                for x in op.get('wm') or [op['m']]:
                    try:
                        made.append(cls(bare(x), state={'waste': n}))
                    except Exception:
                        continue
                    for use in ('dump', 'copy', 'update', 'dump'):
                        try:
                            made.append(getattr(made[-1], use)(*([bare(x)] if use == 'update' else [])))
                        except Exception:
                            pass
                    made = [i for i in made if isinstance(i, Schema)]
            del made
        finally:
            self.wasting = False
        gc.collect()

    def arm(self, op):
        t = self.sched.cur
        if op.get('intr'):
            t.intr = op['intr']
            t.intr_exc = HARD[op.get('intrk', 'KeyboardInterrupt')]
            t.intr_fired = False

    def disarm(self, op):
        t = self.sched.cur
        fired = t.intr_fired
        t.intr = None
        t.intr_fired = False
        return fired

    def exec_op(self, op, fr, env):
        r = Result()
        slots = env['slots']
        k = op['op']
        if 's' in op and slots.get(op['s']) is None:
            r.kind = 'skip'
            return r
        fr.inst = slots.get(op.get('s'))
        raws = []
        if op.get('waste'):
            self.count('instances die')
            self.quiet(self.litter, op)
        call = self.prepare(op, fr, env, raws)
        before = [(m, canon_raw_deep(m)) for m in raws]
        ctx0 = dict(contextvars.copy_context().items())
        r.inv = self.sched.step
        exc = None
        val = None
        self.arm(op)
        try:
            val = call()
        except simsched.Abort:
            raise
        except BaseException as e:
            exc = e
        r.intr = self.disarm(op)
        r.intrk = op.get('intrk')
        r.res = self.sched.step
        ctx1 = dict(contextvars.copy_context().items())
        if not r.intr and not same_ctx(ctx0, ctx1):
            self.note('ctx', '%s %s left the execution context changed: %s'
                      % (k, 'raised ' + type(exc).__name__ if exc is not None else 'returned', ctx_diff(ctx0, ctx1)))
        r.events = fr.events
        r.nest = fr.nest
        r.probes = fr.probes
        for m, c in before:
            if canon_raw_deep(m) != c:
                self.note('datamod', '%s modified the data passed to it' % k)
        self.quiet(self.finish, op, r, exc, val, fr, env)
        return r

    def prepare(self, op, fr, env, raws):
        k = op['op']
        slots = env['slots']
        if k == 'new':
            cls = self.cls(op['c'])
            m = self.mapping(op['m'], env, None, None, 'new')
            raws.append(m)
            if hasattr(m, 'u'):
                fr.tops = {m.u: m}
            kw = {}
            if 'state' in op:
                kw['state'] = self.plain(op['state'])
            if op.get('ie') is not None:
                kw['ignore_extra'] = op['ie']
            fr.included = None
            fr.state = kw.get('state')
            return lambda: cls(m, **kw)
        inst = fr.inst
        if k == 'bad':
            self.count('misuse of ' + op['x'])
            v = self.plain(op['v'])
            if op['x'] == 'new':
                cls = self.cls(op['c'])
                return lambda: cls(v)
            if op['x'] == 'upd':
                return lambda: inst.update(v)
            names = list(type(inst).__w_fields__)
            return lambda: inst.dump(include=names[:1], exclude=names[1:])
        if k == 'set':
            name = op['f']
            fobj = getattr(type(inst), name, None)
            key = fobj.load_key if fobj is not None else None
            v = self.value(op['v'], env, 'set', key)
            raws.append(v)
            return lambda: setattr(inst, name, v)
        if k == 'upd':
            m = self.mapping(op['m'], env, None, None, 'upd')
            raws.append(m)
            if hasattr(m, 'u'):
                self.by_map[m.u] = m.inst = inst
            kw = {}
            if op.get('ie') is not None:
                kw['ignore_extra'] = op['ie']
            return lambda: inst.update(m, **kw)
        if k == 'get':
            n = op['n']
            via = op.get('via', 'attr')
            if via == 'attr':
                return lambda: getattr(inst, n)
            if via == 'gv':
                return lambda: inst.get_value_for(n)
            return lambda: inst.get_value_for(n, UNSET)
        if k == 'dump':
            kw = {}
            T = {'list': list, 'tuple': tuple, 'set': set, 'userlist': collections.UserList, 'frozenset': frozenset,
                 'keys': dict.fromkeys}[op.get('t', 'list')]
            names = set(type(inst).__w_fields__)
            if op.get('inc') is not None:
                kw['include'] = T(op['inc'])
                names &= set(op['inc'])
            if op.get('exc') is not None:
                kw['exclude'] = T(op['exc'])
                names -= set(op['exc'])
            fr.included = names
            fr.dumpmap, fr.nest = self.quiet(dump_map, inst)
            fr.kw = [(x, T(x)) for x in kw.values()]
            return lambda: inst.dump(**kw)
        if k == 'copy':
            return lambda: inst.copy()
        if k == 'repr':
            fr.kw = self.quiet(held, inst)
            return lambda: SHOW[op['via']](inst)
        if k == 'mut':
            def mut():
                st = inst.context.state
                if isinstance(st, dict):
                    st[op['k']] = op['x']
                elif isinstance(st, StObj):
                    setattr(st, op['k'], op['x'])
                elif isinstance(st, list):
                    st.append(op['x'])
                elif op.get('replace'):
                    inst.context.state = self.plain(op['x'])
            return mut
        raise Invalid(k)

    def scribble(self, inst, val, depth=0):
        """The caller does with the result of a dump what it likes."""
        if not isinstance(val, dict) or depth > 8:
            return
        for n in type(inst).__w_fields__:
            x = inst.get_value_for(n, UNSET)
            if isinstance(x, Schema):
                self.scribble(x, val.get(getattr(type(inst), n).dump_key), depth + 1)
        val['scribbled'] = 1

    def finish(self, op, r, exc, val, fr, env):
        k = op['op']
        slots = env['slots']
        for c, toks in fr.copies:
            if self.tokens(c) != toks:
                self.note('copy', 'a copy made in a callback changed with the original')
        if exc is None:
            r.kind = 'ok'
            if k == 'new':
                slots[op['to']] = val
                r.inst = val
                self.check_defaults(val, fr)
                if val.context.state is not fr.state:
                    self.note('vctx', 'context.state is %s, not the state given' % desc(val.context.state))
                if type(val) is not self.cls(op['c']):
                    self.note('outcome', 'constructing gave a %s' % type(val).__name__)
            elif k == 'copy':
                src = fr.inst
                slots[op['to']] = val
                r.copied = self.tokens(val)
                r.inst = val
                if val is src or type(val) is not type(src):
                    self.note('copy', 'copy() gave %s' % desc(val))
                elif not same_values(src, val):
                    self.note('copy', 'a copy holds equal values, but not the same objects')
                elif val.context is src.context or val.context.schema is not val:
                    self.note('copy', 'the context of a copy is not its own')
                elif isinstance(src.context.state, (dict, list, StObj)) and val.context.state is src.context.state:
                    self.note('copy', 'a copy shares the context state of the original')
                elif not same_parts(src.context.state, val.context.state):
                    self.note('copy', 'the context state of a copy is not a shallow copy')
                if not val.context.is_initialized():
                    self.note('copy', 'a copy is not initialized')
            elif k == 'get':
                r.value = canon(val)
                if isinstance(val, (Loaded, DefaultVal, Schema)):
                    r.inst = val
                if 'to' in op and isinstance(val, Schema):
                    slots[op['to']] = val
            elif k == 'dump':
                r.value = canon(val)
                if type(val) is not dict:
                    self.note('dumpval', 'dump() gave a %s' % type(val).__name__)
                if any(a != b for a, b in fr.kw):
                    self.note('dumpval', 'dump() changed the list of names given to it')
                self.scribble(fr.inst, val)
            elif k == 'repr':
                if self.scn.get('shared'):
                    r.value = val
                else:
                    self.check_text(fr.inst, val, fr.kw, 'then')
            elif val is not None and k in ('upd', 'set'):
                self.note('outcome', '%s returned %r' % (k, val))
        elif isinstance(exc, oblate.ValidationError):
            r.kind = 'verr'
            r.exc = exc
            try:
                raw = exc.raw()
                r.report = report_of(raw)
                for x in raw.values():
                    x.clear()
                raw['scribbled'] = ['x']
                if sorted(map(json.dumps, report_of(exc.raw()))) != sorted(map(json.dumps, r.report)):
                    self.note('report', 'raw() of the error gives another report the second time')
                r.text = str(exc)
            except BaseException as e:
                r.report = [[['?'], 'raw() raised %r' % (e,)]]
        else:
            r.kind = 'exc'
            r.exc = exc
        if k == 'new' and exc is not None:
            slots[op['to']] = None
        if k == 'copy' and exc is not None:
            slots[op['to']] = None
        r.slots = dict(slots)
        r.maps = dict(self.by_map)
        r.state = self.snapshot(env)


SHOW = {'repr': repr, 'str': str, 'fmt': '{}'.format, 'pct': lambda x: '%r' % (x,)}


def held(inst):
    return {n: inst.get_value_for(n, UNSET) for n in type(inst).__w_fields__}


def same_config(inst):
    c = inst.context.config
    return c is getattr(type(inst), '__config__', c)


def short_exc(e):
    return ('%s: %s' % (type(e).__name__, e))[:160]


def ctx_view(ctx):
    v = [type(ctx), ctx.field, ctx.schema, ctx.value, ctx.schema.context.schema, ctx.schema.context.is_initialized()]
    if isinstance(ctx, LoadContext):
        v.append(ctx.is_update())
    else:
        v.append(frozenset(ctx.included_fields))
    return v


def same_values(a, b):
    """False if a field of two instances reads as two equal, but different objects."""
    for n in type(a).__w_fields__:
        x, y = a.get_value_for(n, UNSET), b.get_value_for(n, UNSET)
        if x is not y and isinstance(x, (Loaded, DefaultVal, Schema, list, dict, set)) and canon(x) == canon(y):
            return False
    return True


def same_parts(a, b):
    """Whether two equal states hold the very same objects."""
    a, b = [vars(x) if isinstance(x, StObj) else x for x in (a, b)]
    if isinstance(a, dict):
        return all(b.get(k) is v for k, v in a.items())
    if isinstance(a, list):
        return all(x is y for x, y in zip(a, b))
    return True


NAMES = {}              # id of a field object -> its name


def fname(f):
    return NAMES.get(id(f))


def fmt_code(code):
    """The documented error codes end in these names whatever the field."""
    return str(code).rsplit('.', 1)[-1]


def canon_raw(v):
    u = getattr(v, 'u', None)
    if u is not None:
        return ['u', u]
    if isinstance(v, Schema):
        return ['I', type(v).__name__]
    return canon(v)


def canon_raw_deep(v):
    if isinstance(v, Schema):
        return ['I', id(v)]
    if isinstance(v, collections.abc.Mapping):
        d = v._d if isinstance(v, SpyMapping) else v
        return ['dict', [[canon_key(k), id(x), canon_raw_deep(x)] for k, x in d.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [[id(x), canon_raw_deep(x)] for x in v]]
    return canon(v)


def desc(x):
    return '%s object' % type(x).__name__ if x is not None else 'None'


def same_ctx(a, b):
    return len(a) == len(b) and all(k in b and b[k] is v for k, v in a.items())


def ctx_diff(a, b):
    out = []
    for k in b:
        if k not in a:
            out.append('%s set to %s' % (k.name, desc(b[k])))
        elif a[k] is not b[k]:
            out.append('%s changed from %s to %s' % (k.name, desc(a[k]), desc(b[k])))
    for k in a:
        if k not in b:
            out.append('%s removed' % k.name)
    return '; '.join(sorted(out))


def dump_map(inst):
    out = {}
    nest = {}
    seen = set()

    def walk(s):
        if id(s) in seen:
            return
        seen.add(id(s))
        for n in type(s).__w_fields__:
            v = s.get_value_for(n, UNSET)
            f = getattr(type(s), n)
            out.setdefault((id(f), id(v)), []).append(s)
            if isinstance(v, Schema):
                nest[id(s), n] = v
                walk(v)
    walk(inst)
    return out, nest
