"""Compares what a run recorded with what the reference model expects.

Every disagreement is filed under an *aspect*; which aspects are violations of which
property is decided in props.py.
"""
import json
import traceback

import world as W
from world import oblate, UNSET
import model as M
from model import Model, ANY, canon_plain, canon_key


class Judge:
    def __init__(self, w):
        self.w = w
        self.out = []
        self.model = Model(w.scn)
        self.judged = 0

    def add(self, aspect, msg, gid, idx, op=None):
        self.out.append({'aspect': aspect, 'msg': msg, 'g': gid, 'op': idx,
                         'k': op['op'] if op else None})

    def run(self):
        progs = {}

        def walk(x):
            if isinstance(x, dict):
                if 'ops' in x and 'g' in x:
                    progs[x['g']] = x
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(self.w.scn['threads'])
        self.progs = progs
        self.w.check_registry()
        for aspect, msg, gid, idx in self.w.notes:
            op = progs[gid]['ops'][idx] if gid in progs and idx is not None else None
            self.add(aspect, msg, gid, idx, op)
        top = {t['g'] for t in self.w.scn['threads']}
        for gid in sorted(self.w.groups):
            for results, env in self.w.groups[gid]:
                self.program(progs[gid], results, gid in top)
        return self.out

    def program(self, prog, results, top):
        env = {}
        self.copied = set()
        for idx, r in enumerate(results):
            try:
                if not self.one(prog, idx, r, env, top):
                    return
            except Exception as x:
                if self.w.scn.get('shrunk'):
                    raise
                self.add('malformed', 'what the run recorded cannot be judged: %s'
                         % traceback.format_exc(limit=-4), prog['g'], idx, prog['ops'][idx])
                return

    def one(self, prog, idx, r, env, top):
        """Judges one operation; False ends the judging of the program."""
        gid = prog['g']
        if True:
            op = prog['ops'][idx]
            k = op['op']
            self.judged += 1
            self.copied.discard(op.get('to'))
            if k == 'copy':
                self.copied.add(op['to'])
            old = {n: dict(i.vals) for n, i in env.items() if i is not None}
            olds = {n: _copy(i.state) for n, i in env.items() if i is not None}
            e = self.model.step(op, env)
            if e.kind == 'skip' or r.kind == 'skip':
                return e.kind == r.kind
            if r.intr:
                return self.interrupted(op, r, e, env, old, gid, idx)
            good = self.outcome(op, r, e, gid, idx)
            self.events(op, r, e, gid, idx)
            if good:
                if r.kind == 'verr':
                    self.report(op, r, e, gid, idx)
                    self.attrs(op, r, e, env, gid, idx, top)
                elif r.kind == 'ok' and k in ('get', 'dump'):
                    if r.value != e.value:
                        self.add('value' if k == 'get' else 'dumpval',
                                 '%s gave %s, expected %s' % (k, js(r.value), js(e.value)), gid, idx, op)
                        i = env.get(op['s'])
                        if k == 'get' and i is not None and i.cls.fields.get(op['n']):
                            self.out[-1]['dflt'] = bool(i.cls.fields[op['n']].spec.get('dflt'))
            self.life(op, r, e, gid, idx)
            if not good:
                if r.kind == 'ok':
                    return False
                # it failed where it should not have, or otherwise: still nothing may have changed
                for n, i in env.items():
                    if i is not None and n in old:
                        i.vals = old[n]
            if not self.state(op, r, e, env, gid, idx, good):
                return False
            return good or k not in ('new', 'copy')

    # -- outcome ------------------------------------------------------------------

    def got(self, r, gid=None, idx=None, op=None):
        if r.kind in ('ok', 'verr'):
            return r.kind
        x = r.exc
        if type(x) is RuntimeError and isinstance(x.__cause__, StopIteration):
            x = x.__cause__         # Python's own conversion where a generator was in between
            converted = True
        else:
            converted = False
        for tok, hs in self.w.hard.items():
            if any(h is x for h in hs):
                if converted and op is not None:
                    self.add('stopiter', 'the StopIteration raised by user code reached the caller as a RuntimeError',
                             gid, idx, op)
                return 'hard:' + tok
        if isinstance(x, oblate.FrozenError):
            return 'frozen'
        if isinstance(x, oblate.FieldNotSet):
            return 'notset'
        if isinstance(x, (ValueError, AssertionError, oblate.FieldError)):
            return 'soft:' + type(x).__name__
        return 'other:' + type(x).__name__

    def outcome(self, op, r, e, gid, idx):
        g = self.got(r, gid, idx, op)
        k = op['op']
        want = e.kind
        ok = False
        if want in ('ok', 'verr'):
            ok = g == want
        elif want == 'hard':
            ok = g.startswith('hard:') and g[5:] in e.toks
            ok = ok or (g == 'other:TypeError' and M.MISUSE in e.toks)
        elif want == 'frozen':
            ok = g == 'frozen' or (g.startswith('hard:') and g[5:] in e.toks) or (g == 'other:TypeError' and M.MISUSE in e.toks)
            if g == 'frozen':
                self.frozen_entity(op, r, e, gid, idx)
        elif want == 'notset':
            ok = g == 'notset'
            if ok:
                f = getattr(type(self.inst_of(r, op, gid)), e.name, None) if self.inst_of(r, op, gid) else None
        elif want == 'misuse':
            ok = r.kind == 'exc'
        elif want == 'rte':
            ok = g == 'other:RuntimeError'
        if not ok:
            detail = ''
            if r.exc is not None:
                detail = ': %s' % short(r.exc)
            exp = want if want != 'hard' else 'hard:' + ','.join(map(str, e.toks))
            if want == 'verr':
                exp += ' ' + js([[x['path'], x['tok']] for x in e.out.report])
            self.out.append({'aspect': 'outcome', 'msg': '%s ended with %s%s; expected %s' % (k, g, detail, exp),
                             'g': gid, 'op': idx, 'k': k, 'exp': want, 'got': g.split(':')[0], 'gotx': g})
            return False
        if r.kind == 'verr' and type(r.exc) is not self.w.err_cls:
            self.add('errcls', 'raised %s, not the configured %s' % (type(r.exc).__name__, self.w.err_cls.__name__),
                     gid, idx, op)
        return True

    def inst_of(self, r, op, gid):
        return None

    def frozen_entity(self, op, r, e, gid, idx):
        ent = r.exc.entity
        for kind, *name in e.entities:
            if kind == 'schema' and isinstance(ent, W.Schema):
                if self.holder(r, op) is None or ent is self.holder(r, op):
                    return
            if kind == 'field' and isinstance(ent, W.F.Field):
                h = self.holder(r, op)
                if h is None or getattr(type(h), name[0], None) is ent:
                    return
        self.add('frozen', 'FrozenError names %r, expected one of %s' % (ent, js(e.entities)), gid, idx, op)

    def holder(self, r, op):
        return r.slots.get(op['s']) if getattr(r, 'slots', None) else None

    # -- reports ------------------------------------------------------------------

    def report(self, op, r, e, gid, idx):
        exp = [(js(x['path']), x['tok']) for x in e.out.report]
        got = [(js(p), m) for p, m in r.report]
        missing, extra = match(exp, got)
        if missing or extra:
            self.add('report', '%s: %s%s' % (op['op'],
                     'not reported: %s ' % missing if missing else '',
                     'wrongly reported: %s' % extra if extra else ''), gid, idx, op)

    # -- attribution --------------------------------------------------------------

    def attrs(self, op, r, e, env, gid, idx, top):
        exp = {}
        for x in e.out.report:
            exp.setdefault(js(x['path']), []).append(x)
        k = op['op']
        inst = None
        if k != 'new':
            inst = r.slots.get(op['s'])
            cls = type(inst)
        else:
            cls = self.w.classes[op['c']]
            u = op['m'].get('u')
            inst = r.maps.get(u) if cls.__w_pre__ else None
        err = r.exc
        self.check_errs(err.errors, err.schema, cls, inst, [], exp, k, gid, idx, op, top, True, r.maps, r.nest)

    def check_errs(self, errors, schema, cls, inst, path, exp, k, gid, idx, op, top, outer, maps, nest):
        def bad(msg):
            self.add('attr', msg, gid, idx, op)
        if outer:
            if inst is not None and schema is not inst:
                bad('ValidationError.schema is %s, not the %s of the %s' % (W.desc(schema), cls.__name__, k))
            elif type(schema) is not cls:
                bad('ValidationError.schema is %s, expected a %s' % (W.desc(schema), cls.__name__))
        if schema is None:
            schema = inst
        by_key = {}
        for n in cls.__w_fields__:
            f = getattr(cls, n)
            by_key[f.load_key] = f
        for er in errors:
            if er.key == 'aux' and type(er.schema) is self.w.aux:
                continue        # passed on by a callback
            if er.schema is not (inst if inst is not None else (schema or er.schema)) or type(er.schema) is not cls:
                bad('FieldError %r: schema is %s, not the %s %s' % (short(er), W.desc(er.schema), cls.__name__,
                                                                    'being processed'))
                continue
            if schema is None:
                schema = er.schema
            p = path + [canon_key(er.key) if isinstance(er.key, str) else ['key', repr(er.key)]]
            xs = exp.get(js(p))
            if isinstance(er.message, dict):
                f = by_key.get(er.key)
                if f is None or er.field is not f:
                    bad('nested FieldError: field is %r' % (er.field,))
                    continue
                self.check_ctx(er, f, None, k, bad)
                sub = [x for l in er.message.values() for x in l]
                ncls, ninst, ns = None, None, None
                if k == 'dump':
                    ninst = nest.get((id(er.schema), W.fname(f)))
                    if ninst is None:
                        bad('nested FieldError %r of a field without nested schema' % short(er))
                        continue
                    ncls = type(ninst)
                else:
                    ncls = f.schema_cls
                    mus = {x['mu'] for q, l in exp.items() for x in l
                           if len(x['path']) == len(p) + 1 and x['path'][:-1] == p}
                    if len(mus) == 1 and ncls.__w_pre__:
                        ninst = maps.get(mus.pop())
                if isinstance(ninst, W.Schema) or ninst is None:
                    self.check_errs(sub, None, ncls, ninst, p, exp, k, gid, idx, op, top, False, maps, nest)
                continue
            if xs is None:
                continue        # an unexpected error: a matter of the report
            f = by_key.get(er.key)
            try:
                ff = er.field
            except Exception as x:
                ff = x
            if ff is not f:
                bad('FieldError %r under key %r: field is %r' % (short(er), er.key, ff))
            cats = {x['cat'] for x in xs}
            if cats == {'value'} and f is not None:
                self.check_ctx(er, f, xs[0]['raw'], k, bad)
            elif top and outer and er.context is not None:
                bad('FieldError %r (%s) has a %s' % (short(er), '/'.join(cats), W.desc(er.context)))
            states = {js(x['state']) for x in xs if x['tok'] == ANY or x['tok'] == str(er.message)}
            if states and js(er.state) not in states:
                bad('FieldError %r: state is %r, expected %s' % (short(er), er.state, sorted(states)))

    def check_ctx(self, er, f, raw, k, bad):
        c = er.context
        want = W.DumpContext if k == 'dump' else W.LoadContext
        if type(c) is not want:
            bad('FieldError %r: context is %s, expected a %s' % (short(er), W.desc(c), want.__name__))
            return
        if c.field is not f:
            bad('FieldError %r: context is that of field %r' % (short(er), W.fname(c.field)))
        if c.schema is not er.schema:
            bad('FieldError %r: context is that of another schema' % short(er))
        if raw is not None and raw != ANY:
            got = W.canon(c.value) if k == 'dump' else W.canon_raw(c.value)
            if got != raw:
                bad('FieldError %r: context is that of value %s, not %s' % (short(er), js(got), js(raw)))

    # -- callbacks ----------------------------------------------------------------

    def events(self, op, r, e, gid, idx):
        if e.out is None:
            return
        got = []
        reads = {}
        for ev in r.events:
            k = ev[0]
            if k == 'load':
                got.append(('load', ev[1], js(ev[2])))
            elif k in ('raw', 'val'):
                if ev[1] not in self.w.flex:
                    got.append((k, ev[1], js(ev[2])))
            elif k == 'dump':
                got.append(('dump', ev[1], js(ev[2])))
            elif k == 'pre':
                got.append(('pre', ev[1], ev[3]))
            elif k == 'post':
                got.append(('post', ev[2], None))
            elif k == 'def':
                got.append(('def', ev[1], None))
            else:
                reads.setdefault(ev[1], []).append((k, ev[2]))

        def norm(x):
            if x[0] in ('post', 'def'):
                return (x[0], x[1], None)
            if x[0] == 'pre':
                return x
            return (x[0], x[1], ANY if x[2] == ANY else js(x[2]))
        exp = [norm(x) for x in e.out.events]
        opt = [norm(x) for x in e.out.optional]
        missing, extra = match2(exp, got)
        if extra and opt:
            _, extra = match2(opt, extra)
        if e.out.upper or e.kind in ('hard', 'frozen'):
            missing = []
        for m in missing:
            self.ev_problem(m, 'was not called', op, gid, idx)
        for x in extra:
            self.ev_problem(x, 'was called unexpectedly (or again)', op, gid, idx)
        for i, want in e.out.reads.items():
            for k, g in reads.get(i, ()):
                if want != ANY and g != want:
                    asp = 'selfop' if k == 'selfset' else 'copy' if k == 'copyset' else 'readdump' if k == 'readdump' else 'repr' if k == 'readrepr' else 'read'
                    self.add(asp, 'a callback of %s: %s gave %s, expected %s' % (op['op'], k, js(g), js(want)), gid, idx, op)

    def ev_problem(self, x, what, op, gid, idx):
        asp = {'load': 'calls-load', 'raw': 'calls', 'val': 'calls', 'dump': 'calls-dump', 'pre': 'life',
               'post': 'life', 'def': 'default'}[x[0]]
        names = {'load': 'value_load of', 'raw': 'raw validator', 'val': 'validator', 'dump': 'value_dump of',
                 'pre': 'preprocess_data for mapping', 'post': '__schema_post_init__ of', 'def': 'default of'}
        self.add(asp, '%s: %s %s with %s %s' % (op['op'], names[x[0]], x[1], x[2], what), gid, idx, op)

    def life(self, op, r, e, gid, idx):
        """Order of the callbacks of each instance that was constructed."""
        per = {}
        for n, ev in enumerate(r.events):
            if ev[0] == 'pre':
                per.setdefault(ev[2], []).append((n, 'pre'))
            elif ev[0] in ('load', 'raw', 'val'):
                per.setdefault(ev[3], []).append((n, ev[0]))
            elif ev[0] == 'post':
                per.setdefault(ev[1], []).append((n, 'post'))
            elif ev[0] == 'def':
                per.setdefault(ev[3], []).append((n, 'def'))
        for sid, evs in per.items():
            if sid is None:
                continue
            kinds = [k for _, k in evs]
            if 'pre' in kinds:
                if kinds[0] != 'pre':
                    self.add('life', 'preprocess_data ran after %s' % kinds[0], gid, idx, op)
            if 'post' in kinds and kinds[-1] != 'post':
                self.add('life', '__schema_post_init__ ran before %s' % kinds[-1], gid, idx, op)
            if ('pre' in kinds or op['op'] == 'new') and 'val' in kinds:
                last = max(i for i, k in enumerate(kinds) if k == 'load')  if 'load' in kinds else -1
                if kinds.index('val') < last:
                    self.add('order', 'a validator ran before another supplied field was deserialized', gid, idx, op)

    # -- state --------------------------------------------------------------------

    def state(self, op, r, e, env, gid, idx, good):
        ok = True
        k = op['op']
        for n, i in env.items():
            if i is None:
                if r.state.get(n) is not None and n == op.get('to'):
                    ok = False
                continue
            got = r.state.get(n)
            if got is None:
                if n == op.get('to'):
                    return False
                self.add('state', 'slot %s vanished' % n, gid, idx, op)
                return False
            c = i.canon()
            if got[0] != c:
                diff = [(f, js(got[0][2].get(f)), js(c[2][f])) for f in c[2] if got[0][2].get(f) != c[2][f]] \
                    if got[0][1] == c[1] else (got[0][1], c[1])
                target = n in (op.get('s'), op.get('to'))
                fr = [f for f in i.cls.fields.values()
                      if (f.spec.get('frozen') or i.cls.config.get('frozen')) and got[0][2].get(f.name) != c[2][f.name]]
                self.out.append({'aspect': 'state' if target else 'state-other',
                                 'msg': 'after %s (%s), %s: (field, got, expected) %s' % (k, r.kind, n, diff),
                                 'g': gid, 'op': idx, 'k': k, 'end': r.kind, 'frozen': bool(fr), 'good': good,
                                 'self': target, 'exp': e.kind, 'copied': n in self.copied,
                                 'dflt': got[0][1] == c[1] and any(i.cls.fields[f].spec.get('dflt') for f in c[2]
                                                                   if got[0][2].get(f) != c[2][f])})
                ok = False
            st = canon_plain(i.state)
            if got[1] != st:
                self.out.append({'aspect': 'ctxstate', 'msg': 'after %s, context.state of %s is %s, expected %s'
                                 % (k, n, js(got[1]), js(st)), 'g': gid, 'op': idx, 'k': k,
                                 'self': n in (op.get('s'), op.get('to'))})
                ok = False
            if got[2] is not True:
                self.add('life', 'is_initialized() of %s is %r after %s' % (n, got[2], k), gid, idx, op)
                self.out[-1]['copied'] = n in self.copied
            if got[3] is not True:
                self.add('vctx', 'context.schema of %s is another schema' % n, gid, idx, op)
                self.out[-1]['copied'] = n in self.copied
            if got[4] is not True:
                self.add('vctx', 'context.config of %s is not that of its class' % n, gid, idx, op)
                self.out[-1]['copied'] = n in self.copied
        return ok

    def interrupted(self, op, r, e, env, old, gid, idx):
        k = op['op']
        name = op.get('intrk', 'KeyboardInterrupt')
        if r.kind != 'exc' or type(r.exc).__name__ != name:
            if name != 'KeyboardInterrupt':
                return False    # (a failing allocation may be recovered from)
            self.add('swallowed', 'an interrupt of %s was swallowed (%s)' % (k, r.kind), gid, idx, op)
            return False
        if k == 'get' and 'to' in op:
            return False
        if k in ('new', 'copy'):
            env[op['to']] = None
        seen = {n: i for n, i in env.items() if i is not None and n in old}
        new = {n: i.canon() for n, i in seen.items()}
        got = {n: r.state[n][0] if r.state.get(n) is not None else None for n in seen}
        if got == new:
            return True
        for n, i in seen.items():
            i.vals = dict(old[n])
        for n, i in seen.items():
            c_old = i.canon()
            if got[n] != c_old:
                self.out.append({'aspect': 'state' if n == op.get('s') else 'state-other',
                                 'msg': 'after an interrupted %s, %s is %s: neither as before (%s) nor as after (%s)'
                                 % (k, n, js(got[n] and got[n][2]), js(c_old[2]), js(new[n][2])),
                                 'g': gid, 'op': idx, 'k': k, 'end': 'intr', 'frozen': False, 'good': True,
                                 'self': n == op.get('s')})
                return False
        return True


def match(exp, got):
    """Multiset match of (key, message); the message ANY matches anything left over."""
    got = list(got)
    missing = []
    wild = []
    for x in exp:
        if x[1] == ANY:
            wild.append(x)
        elif x in got:
            got.remove(x)
        else:
            missing.append(x)
    for x in wild:
        for g in got:
            if g[0] == x[0]:
                got.remove(g)
                break
        else:
            missing.append(x)
    return missing, got


def match2(exp, got):
    got = list(got)
    missing = []
    wild = []
    for x in exp:
        if x[2] == ANY:
            wild.append(x)
        elif x in got:
            got.remove(x)
        else:
            missing.append(x)
    for x in wild:
        for g in got:
            if g[:2] == x[:2]:
                got.remove(g)
                break
        else:
            missing.append(x)
    return missing, got


def js(x):
    return json.dumps(x, sort_keys=True)


def short(e):
    return ('%s: %s' % (type(e).__name__, e)).replace('\n', ' ')[:160]


def _copy(x):
    import copy
    return copy.deepcopy(x)
