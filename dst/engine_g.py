"""Engine G (C12): the global configuration as a shared register.

Threads (and callbacks of running operations) set options, rebind oblate.config, try
settings that are rejected, and run operations that fail or use unsupported types.  For
every operation the values that an option can have had at some instant during it follow
from the recorded history; the class of the error raised and the warnings issued must be
among them.
"""
import json
import random
import types
import typing
import warnings
import zlib

import seams
oblate = seams.load()
import simsched
import runner
from oblate import fields as F

STEP_CAP = 3_000_000
world = None
T = typing.TypeVar('T')


class Hard(Exception):
    pass


class Tok:
    def __init__(self, t, b):
        self.t, self.b = t, b

    def __repr__(self):
        return self.t


def act(x, stage):
    simsched.point(stage)
    if not isinstance(x, Tok) or world is None or world.me() in world.quiet:
        return
    for a in x.b.get(stage, ()):
        k = a['a']
        if k == 'soft':
            world.count(world.faults, 'rejection in ' + stage)
            if a.get('e') == 'FieldError':
                raise oblate.FieldError(a.get('msg', 'no'))
            raise (AssertionError if a.get('e') == 'A' else ValueError)(a.get('msg', 'no'))
        if k == 'hard':
            world.count(world.faults, 'abort in ' + stage)
            raise Hard('hard')
        if k == 'op':
            world.count(world.faults, 're-entry in ' + stage)
            world.op(a['op'])


class CF(F.Field):
    def value_load(self, value, context):
        act(value, 'load')
        return value

    def value_dump(self, value, context):
        act(value, 'dump')
        return value


def validator(schema, value, context):
    act(value, 'val')


def raw_validator(schema, value, context):
    act(value, 'raw')


def make_error(n, kind):
    if kind == 'init':
        class E(oblate.ValidationError):
            def __init__(self, errors):
                simsched.point('error')
                super().__init__(errors)
                self.extra = n
    elif kind == 'raw':
        class E(oblate.ValidationError):
            def raw(self):
                return {'errors': super().raw()}
    else:
        class E(oblate.ValidationError):
            pass
    E.__name__ = E.__qualname__ = n
    return E


class World:
    def __init__(self, scn):
        self.scn = scn
        self.quiet = set()       # threads whose callbacks do nothing now
        self.t = 0
        self.faults = {}
        self.ops = {}
        self.viol = []
        self.E = {}
        for n, kind, base in scn['errs']:
            self.E[n] = make_error(n, kind)
            if base:
                self.E[n] = type(n, (self.E[n], self.E[base]), {})
        self.E['base'] = oblate.ValidationError
        self.boxes = []
        for i in range(scn['boxes']):
            # two types may well have the same name
            self.boxes.append(types.new_class(self.box_name(i), (typing.Generic[T],)))
        self.configs = {}               # serial -> {attr: writes}
        self.serials = {}               # id -> serial of the newest configuration there
        self.cells = []                 # writes of oblate.config
        self.log = []
        self.stack = {}
        self.spare = {}
        c = oblate.config
        self.known(c, oblate.ValidationError, True)
        self.cells.append((0, 0, self.serials[id(c)], False))
        self.build()

    def count(self, d, k):
        d[k] = d.get(k, 0) + 1

    def tick(self):
        self.t += 1
        return self.t

    def me(self):
        s = simsched.current
        return s.cur.tid if s is not None else -1

    def bad(self, aspect, msg):
        if len(self.viol) < 10:
            self.viol.append(runner.bug(aspect, msg))

    def known(self, c, cls, warn):
        # no reference is kept: configurations that are no longer in use go away
        n = self.serials[id(c)] = len(self.configs)
        self.configs[n] = {'validation_error_cls': [(0, 0, cls, False)],
                           'warn_unsupported_types': [(0, 0, warn, False)]}

    def build(self):
        def field(**kw):
            f = CF(none=False, **kw)
            f.add_validator(validator)
            f.add_validator(raw_validator, raw=True)
            return f
        nb = len(self.boxes)
        M = type(oblate.Schema)
        self.N2 = M('N2', (oblate.Schema,), {'z': field()})
        self.N = M('N', (oblate.Schema,), {'y': field(), 'n2': F.Object(self.N2, required=False),
                                          't1': F.TypeExpr(self.boxes[1 % nb][int], required=False)})
        self.S = M('S', (oblate.Schema,), {
            'x': field(), 'w': field(required=False), 'obj': F.Object(self.N, required=False),
            't0': F.TypeExpr(self.boxes[0][int], required=False),
            't2': F.List(self.boxes[2 % nb][str], required=False),
            'n': F.Integer(required=False)})
        self.uses = {'t0': 0, 't1': 1 % nb, 't2': 2 % nb}

    def value(self, v):
        if isinstance(v, list):
            return {k: self.value(x) for k, x in v}
        if 'raw' in v:
            return v['raw']
        if 'boxes' in v:
            return [self.boxes[0]()] * v['boxes']
        return Tok(v.get('t', 'tok'), v.get('b', {}))

    def box_name(self, i):
        return 'Box%d' % (i // 2 if self.scn.get('twins') else i)

    def used(self, v, n=None):
        """The unsupported types that loading the value comes across - if nothing stops it."""
        out = set()
        if isinstance(v, list):
            for k, x in v:
                if k in self.uses and (k != 't2' or x.get('boxes')):
                    out.add(self.uses[k])
                out |= self.used(x)
        return out

    # operations
    def op(self, op):
        me = self.me()
        st = self.stack.setdefault(me, [])
        if len(st) > 5:
            return
        simsched.point('op')
        k = op['o']
        s = simsched.current
        if s is not None and op.get('intr') and not st:
            s.cur.intr, s.cur.intr_fired = op['intr'], False
        r = {'op': op, 'of': None, 'tid': me, 'inv': self.tick(), 'warned': [], 'exc': None, 'depth': len(st), 'write': None}
        st.append(r)
        self.log.append(r)
        try:
            getattr(self, 'do_' + k)(op, r)
        except simsched.Abort:
            raise
        except BaseException as e:
            r['exc'] = e
        finally:
            st.pop()
            r['res'] = self.tick()
            r['intr'] = s is not None and bool(s.cur.intr_fired)
            if s is not None and op.get('intr') and not st:
                s.cur.intr, s.cur.intr_fired = None, False
                if r['intr']:
                    self.count(self.faults, 'interrupt@line')
        self.finish(r)
        simsched.point('done')

    def finish(self, r):
        """Puts what the operation wrote into the history."""
        w = r['write']
        e = r['exc']
        if w is not None:
            maybe = e is not None
            if e is None or r['intr']:
                x = (r['inv'], r['res'], w[2], maybe)
                if w[0] == 'cell':
                    self.cells.append(x)
                else:
                    self.configs[w[0]][w[1]].append(x)
            if e is not None and not r['intr']:
                self.bad('config', 'a valid setting was refused: %s raised %r' % (json.dumps(r['op']), e))
        if r['op']['o'].startswith('bad') and not r['intr']:
            self.count(self.faults, 'rejected setting')
            if not isinstance(e, TypeError):
                self.bad('config', 'an invalid setting was accepted: %s %r' % (json.dumps(r['op']), e))

    def do_cls(self, op, r):
        c = oblate.config
        r['write'] = (self.serials[id(c)], 'validation_error_cls', self.E[op['e']])
        c.validation_error_cls = self.E[op['e']]

    def do_warn(self, op, r):
        c = oblate.config
        r['write'] = (self.serials[id(c)], 'warn_unsupported_types', op['w'])
        c.warn_unsupported_types = op['w']

    def new_config(self, op):
        kw = {}
        if 'e' in op:
            kw['validation_error_cls'] = self.E[op['e']]
        if 'w' in op:
            kw['warn_unsupported_types'] = op['w']
        c = oblate.GlobalConfig(**kw)
        self.known(c, kw.get('validation_error_cls', oblate.ValidationError), kw.get('warn_unsupported_types', True))
        return c

    def do_rebind(self, op, r):
        c = self.new_config(op)
        r['write'] = ('cell', None, self.serials[id(c)])
        oblate.config = c
        del c
        if op.get('n'):
            self.many(op['n'])

    def many(self, n):
        """Configurations that take the place of earlier ones that went away."""
        es = [self.E[e] for e in sorted(self.E)]
        cs = []
        for i in range(n):
            e, w = es[i % len(es)], bool(i & 1)
            c = oblate.GlobalConfig(validation_error_cls=e, warn_unsupported_types=w)
            cs.append(c)
            if c.validation_error_cls is not e or c.warn_unsupported_types is not w:
                self.bad('config', 'a new configuration is not as it was asked for')
                return
        simsched.point('many')
        for i, c in enumerate(cs):
            if c.validation_error_cls is not es[i % len(es)] or c.warn_unsupported_types is not bool(i & 1):
                self.bad('config', 'a configuration changed by itself')
                return

    def do_spare(self, op, r):
        """A configuration that is not in use (yet)."""
        self.spare[op['to']] = self.new_config(op)

    def do_setspare(self, op, r):
        c = self.spare.get(op['of'])
        if c is not None:
            r['write'] = (self.serials[id(c)], 'validation_error_cls', self.E[op['e']])
            c.validation_error_cls = self.E[op['e']]

    def do_usespare(self, op, r):
        c = self.spare.get(op['of'])
        if c is not None:
            r['write'] = ('cell', None, self.serials[id(c)])
            oblate.config = c

    def do_badcls(self, op, r):
        oblate.config.validation_error_cls = {'int': int, 'exc': Exception, 'field': oblate.FieldError, 'none': None, 'str': 'x',
                                              'inst': oblate.OblateException('x')}[op['x']]

    def do_badwarn(self, op, r):
        oblate.config.warn_unsupported_types = op['x']

    def do_badnew(self, op, r):
        oblate.config = oblate.GlobalConfig(validation_error_cls=int, warn_unsupported_types=op.get('w', False))

    def do_read(self, op, r):
        r['read'] = oblate.config.validation_error_cls
        r['readw'] = oblate.config.warn_unsupported_types

    def do_new(self, op, r):
        r['of'] = self.S
        self.S(self.value(op['d']), **({'ignore_extra': True} if op.get('ie') else {}))

    def inst(self, op):
        c = self.S if op.get('c') != 'N' else self.N
        key = (op.get('c'), self.me(), op.get('i', 0))
        self.quiet.add(self.me())
        try:
            # made in quiet mode: no callbacks, no types to warn about
            d = {'x' if c is self.S else 'y': Tok('i', op.get('ib', {}))}
            if c is self.S and 'nb' in op:
                d['obj'] = {'y': Tok('j', op['nb'])}
            return c(d)
        finally:
            self.quiet.discard(self.me())

    def do_set(self, op, r):
        inst = r['of'] = self.inst(op)
        r['inv'] = self.tick()
        setattr(inst, op['f'], self.value(op['v']))

    def do_upd(self, op, r):
        inst = r['of'] = self.inst(op)
        r['inv'] = self.tick()
        inst.update(self.value(op['d']))

    def do_dump(self, op, r):
        inst = r['of'] = self.inst(op)
        r['inv'] = self.tick()
        inst.dump()

    def do_vt(self, op, r):
        types = {'a': self.boxes[op['i'] % len(self.boxes)][int]}
        oblate.validate_types(types, {'a': 1})

    # judging
    def possible(self, writes, a, b):
        return [w[2] for w in writes if w[0] <= b and not any(
            not x[3] and w[1] < x[0] and x[1] < a for x in writes)]

    def values(self, attr, a, b):
        out = []
        for c in self.possible(self.cells, a, b):
            out += self.possible(self.configs[c][attr], a, b)
        return out

    def judge(self):
        first = {}
        for r in self.log:
            e, op, a, b = r['exc'], r['op'], r['inv'], r['res']
            k = op['o']
            self.count(self.ops, k + (':' + ('failed' if isinstance(e, oblate.ValidationError) else
                                             type(e).__name__) if e is not None else ''))
            if r['intr']:
                continue
            if k == 'read':
                if r.get('read') not in self.values('validation_error_cls', a, b):
                    self.bad('config', 'validation_error_cls is %s, but could only be %s' % (
                        name(r.get('read')), names(self.values('validation_error_cls', a, b))))
                if r.get('readw') not in self.values('warn_unsupported_types', a, b):
                    self.bad('config', 'warn_unsupported_types is %r' % (r.get('readw'),))
                continue
            if k in ('new', 'set', 'upd', 'dump', 'vt'):
                if isinstance(e, oblate.ValidationError):
                    ok = self.values('validation_error_cls', a, b)
                    if type(e) not in ok:
                        self.bad('class', '%s of thread %d (depth %d, %d-%d) raised %s although validation_error_cls was %s'
                                 ' throughout; operation %s' % (k, r['tid'], r['depth'], a, b, name(type(e)), names(ok),
                                                                 json.dumps(op)[:200]))
                    of = r.get('of')
                    if of is not None and (type(e.schema) is not of if isinstance(of, type) else e.schema is not of):
                        self.bad('escaped', 'the failure raised by %s of thread %d is that of a %s'
                                 % (k, r['tid'], type(e.schema).__name__))
                elif e is not None and not isinstance(e, (Hard, KeyboardInterrupt)):
                    self.bad('class', '%s raised %r' % (k, e))
                warn = self.values('warn_unsupported_types', a, b)
                if r['warned'] and True not in warn:
                    self.bad('warned', '%s of thread %d issued %r although warn_unsupported_types was off throughout'
                             % (k, r['tid'], r['warned'][0]))
        # a type used while the option was on has been warned about
        use = {}
        for r in self.log:
            op = r['op']
            us = set()
            if op['o'] == 'vt':
                us = {op['i'] % len(self.boxes)}
            elif op['o'] in ('new', 'upd'):
                us = self.used(op['d'])
            elif op['o'] == 'set' and op['f'] in self.uses:
                us = self.used([[op['f'], op['v']]])
            for u in us:
                use.setdefault(u, []).append(r)
        by_name = {}
        for u, rs in use.items():
            by_name.setdefault(self.box_name(u), []).extend((r, u) for r in rs)
        for tname, rs in by_name.items():
            if any(r['intr'] for r, u in rs):
                continue
            sure = []
            for r, u in rs:
                if r['exc'] is not None and not (isinstance(r['exc'], oblate.ValidationError) and r['op']['o'] == 'vt'):
                    continue        # it may not have come to the type
                if False in self.values('warn_unsupported_types', r['inv'], r['res']):
                    continue
                sure.append((r, u))
            for r, u in sure:
                n = sum(tname + ' ' in m for o in self.log if o['inv'] < r['res'] for m in o['warned'])
                need = len({x for q, x in sure if q['res'] <= r['res']})
                if n < need:
                    self.bad('silent', '%s of thread %d used the unsupported type %s while warn_unsupported_types was on,'
                             ' and no warning has been issued for it (%d types of that name so far, %d warnings)'
                             % (r['op']['o'], r['tid'], tname, need, n))


def name(c):
    return getattr(c, '__name__', repr(c))


def names(cs):
    return ', '.join(sorted({name(c) for c in cs}))


def run(scn):
    global world
    warnings.resetwarnings()
    warnings.simplefilter('always')
    try:
        w = world = World(scn)
    except Exception as e:
        import engine_m
        return {'viol': [runner.bug('define', engine_m.tb(e))]}

    def show(message, category, filename, lineno, file=None, line=None):
        simsched.point('warning')
        for r in w.stack.get(w.me(), ()):
            r['warned'].append(str(message) + ' ')
    warnings.showwarning = show
    s = simsched.Scheduler(scn['sched'], step_cap=STEP_CAP + 40 * len(json.dumps(scn['threads'])))
    s.interrupts = '"intr"' in json.dumps(scn['threads'])

    def body(task, prog):
        for op in prog['ops']:
            w.op(op)
    s.run([(lambda task, p=p: body(task, p)) for p in scn['threads']])
    for x in s.tasks:
        if x.error is not None:
            import engine_m
            if isinstance(x.error, (KeyError, IndexError)) and scn.get('shrunk'):
                return {'invalid': repr(x.error)}
            w.bad('malformed', engine_m.tb(x.error))
    if s.aborted:
        w.bad('hang', s.aborted)
    else:
        try:
            w.judge()
        except KeyError as e:
            if not scn.get('shrunk'):
                raise
            return {'invalid': repr(e)}
    writes = len(w.cells) + sum(len(x) for c in w.configs.values() for x in c.values())
    shape = json.dumps([sorted(w.ops.items()), sorted(w.faults), s.sig, s.step])
    return {'viol': w.viol, 'trace': s.trace,
            'digest': zlib.crc32(json.dumps([[r['op'], r['inv'], r['res'], repr(type(r['exc'])), r['warned']] for r in w.log]).encode()),
            'stats': {'ops': w.ops, 'faults': w.faults, 'steps': s.step, 'switches': s.n_switch, 'threads': len(s.tasks),
                      'sig': s.sig, 'shape': zlib.crc32(shape.encode()), 'nontrivial': writes > 3,
                      'gran': s.gran if len(s.tasks) > 1 else 'one', 'policy': s.policy if len(s.tasks) > 1 else 'one',
                      'extra': {'settings': writes, 'warnings_issued': sum(len(r['warned']) for r in w.log if not r['depth'])}}}


# -- generation ------------------------------------------------------------------------

class G:
    def __init__(self, seed):
        self.r = random.Random('G/%d' % seed)
        self.nspare = 0
        self.depth = 0

    def setting(self):
        r = self.r
        x = r.random()
        e = r.choice(self.errs)
        if x < 0.4:
            return {'o': 'cls', 'e': e}
        if x < 0.55:
            return {'o': 'warn', 'w': r.random() < 0.5}
        if x < 0.75:
            op = {'o': 'rebind'}
            if r.random() < 0.8:
                op['e'] = e
            if r.random() < 0.5:
                op['w'] = r.random() < 0.5
            if r.random() < 0.3:
                op['n'] = r.choice([2, 8, 40])
            return op
        if x < 0.85:
            if not self.nspare or r.random() < 0.5:
                self.nspare += 1
                return {'o': 'spare', 'to': 's%d' % self.nspare, 'e': e}
            if r.random() < 0.5:
                return {'o': 'setspare', 'of': 's%d' % r.randint(1, self.nspare), 'e': e}
            return {'o': 'usespare', 'of': 's%d' % r.randint(1, self.nspare)}
        if x < 0.93:
            return {'o': 'badcls', 'x': r.choice(['int', 'exc', 'field', 'none', 'str', 'inst'])}
        if x < 0.97:
            return {'o': 'badwarn', 'x': r.choice([1, 0, 'yes', None])}
        return {'o': 'badnew', 'w': r.random() < 0.5}

    def tok(self, stages=('load', 'val', 'raw'), p=0.3):
        r = self.r
        b = {}
        for s in stages:
            acts = []
            if r.random() < 0.2 and self.depth < 2:
                self.depth += 1
                acts.append({'a': 'op', 'op': self.setting() if r.random() < 0.6 else self.use()})
                self.depth -= 1
            if r.random() < p:
                acts.append({'a': 'soft', 'e': r.choice(['V', 'A', 'FieldError'])})
            elif r.random() < 0.03:
                acts.append({'a': 'hard'})
            if acts:
                b[s] = acts
        return {'t': 'tok', 'b': b}

    def nested(self):
        r = self.r
        d = []
        if r.random() < 0.9:
            d.append(['y', self.tok()])
        if r.random() < 0.3:
            d.append(['n2', [['z', self.tok()]]])
        if r.random() < 0.3:
            d.append(['t1', {'raw': 1}])
        if r.random() < 0.15:
            d.append(['huh', {'raw': 1}])
        return d

    def items(self, need):
        r = self.r
        d = []
        if need or r.random() < 0.5:
            d.append(['x', self.tok()])
        if r.random() < 0.3:
            d.append(['w', self.tok() if r.random() < 0.7 else {'raw': None}])
        if r.random() < 0.45:
            d.append(['obj', self.nested()])
        if r.random() < 0.3:
            d.append(['t0', {'raw': r.choice([1, 'a'])}])
        if r.random() < 0.2:
            d.append(['t2', {'boxes': r.choice([0, 1, 2])}])
        if r.random() < 0.3:
            d.append(['n', {'raw': r.choice([1, 'a'])}])
        if r.random() < 0.15:
            d.append(['huh', {'raw': 1}])
        r.shuffle(d)
        return d

    def use(self):
        r = self.r
        k = r.choice(['new', 'new', 'new', 'set', 'upd', 'upd', 'dump', 'dump', 'vt'])
        if k == 'new':
            return {'o': k, 'd': self.items(r.random() < 0.85)}
        if k == 'vt':
            return {'o': k, 'i': r.randint(0, 3)}
        if k == 'upd':
            return {'o': k, 'd': self.items(False)}
        if k == 'dump':
            op = {'o': k, 'ib': self.tok(('dump',), 0.5)['b']}
            if r.random() < 0.5:
                op['nb'] = self.tok(('dump',), 0.5)['b']
            return op
        f = r.choice(['x', 'x', 'w', 'obj', 't0', 'n'])
        v = {'x': self.tok, 'w': self.tok, 'obj': self.nested}.get(f, lambda: {'raw': r.choice([1, 'a', None])})()
        return {'o': k, 'f': f, 'v': v}

    def scenario(self, seed):
        r = self.r
        self.errs = ['E%d' % i for i in range(r.choice([2, 3, 4]))] + ['base']
        errs = []
        for i, n in enumerate(self.errs[:-1]):
            errs.append([n, r.choice(['plain', 'init', 'raw']), None])
        threads = []
        style = r.choice(['mixed', 'mixed', 'setters', 'seq'])
        if style == 'seq':
            ops = []
            for _ in range(r.randint(4, 10)):
                ops.append(self.setting() if r.random() < 0.45 else self.use())
                if r.random() < 0.1:
                    ops.append({'o': 'read'})
            threads.append({'g': 'T0', 'ops': ops})
        else:
            for n in range(r.choice([2, 2, 3, 4])):
                ps = 0.3 if style == 'mixed' else (0.95 if n == 0 else 0.03)
                ops = []
                for _ in range(r.randint(2, 6)):
                    x = r.random()
                    ops.append(self.setting() if x < ps else {'o': 'read'} if x > 0.93 else self.use())
                threads.append({'g': 'T%d' % n, 'ops': ops})
        for t in threads:
            for op in t['ops']:
                if r.random() < 0.03:
                    op['intr'] = r.randint(1, 30)
        g = r.choice(['opcode', 'line', 'line', 'hook'])
        p = {'hook': (0.2, 0.5), 'line': (0.03, 0.1, 0.3), 'opcode': (0.01, 0.04, 0.1)}[g]
        return {'v': 1, 'seed': seed, 'errs': errs, 'boxes': r.choice([1, 2, 3, 4]), 'twins': r.random() < 0.4, 'threads': threads,
                'sched': {'policy': r.choice(['rand', 'rand', 'pct']), 'gran': g, 'p': r.choice(p), 'k': r.randint(1, 6),
                          'horizon': {'hook': 60, 'line': 500, 'opcode': 3000}[g], 'seed': r.randrange(1 << 30)}}


class Engine:
    def __init__(self, pid):
        self.pid = pid

    def generate(self, seed):
        return G(seed).scenario(seed)

    def execute(self, scn):
        return runner.guarded(run, scn)
