"""Seeded generation of scenarios for the model engine."""
import json
import random
import re

import model as M

MAXN = 500               # no more re-entrant programs are generated beyond this many values
NAMES = ['a', 'b', 'c', 'd', 'e', 'g', 'h']
SOFTS = ['ValueError', 'ValueError', 'AssertionError', 'FieldError', 'FieldError', 'MyVE', 'MyAE', 'Both',
         'MyFE', 'UnicodeError']
HARDS = ['TypeError', 'KeyError', 'RuntimeError', 'LookupError', 'AttributeError', 'MemoryError',
         'RecursionError', 'StopIteration', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'OSError',
         'IndexError', 'NotImplementedError', 'Exception', 'BaseException', 'MyExc', 'MyBase', 'MyKey',
         'ZeroDivisionError', 'TimeoutError', 'OblateException', 'OverflowError', 'EOFError', 'StopAsyncIteration',
         'UserWarning', 'MyNotSet', 'MyFrozen', 'MyTVE', 'ExceptionGroup', 'CancelledError']

DEFAULT = {
    'threads': [(1, 4), (2, 4), (3, 2)],
    'classes': (1, 4), 'fields': (1, 5), 'ops': (3, 8),
    'kinds': {'sim': 10, 'int': 2, 'str': 2, 'float': 1, 'bool': 1, 'any': 1, 'list': 1, 'dict': 1, 'set': 1,
              'lit': 1, 'union': 1, 'texpr': 1, 'tdict': 1, 'obj': 5},
    'soft': 0.18,            # a value is given a failing behaviour
    'hard': 0.10,            # an operation is given a hard fault
    'nested': 0.12,          # a value is given a re-entrant program
    'probe': 0.25,
    'read': 0.10,
    'selfset': 0.05, 'copyset': 0.03, 'selfupd': 0.03,
    'dup': 0.2,             # an error repeats the text of another
    'twins': 0.12,           # a class has fields alike in everything but the name
    'missing': 0.12, 'unknown': 0.15, 'none_bad': 0.08,
    'frozen_field': 0.15, 'frozen_schema': 0.08,
    'none': 0.35, 'optional': 0.35, 'default': 0.4, 'lk': 0.35, 'dk': 0.3, 'fmt': 0.2,
    'vals': [(0, 3), (1, 4), (2, 3), (3, 1)],
    'raw': 0.35, 'builtin_val': 0.5, 'inherit': 0.3, 'copy_of': 0.12, 'shared': 0.3, 'xval': 0.25,
    'pre': 0.6, 'post': 0.5, 'errcls': 0.1,
    'dual': 0.04, 'ctor': 0.12,
    'opmix': {'new': 2, 'set': 4, 'upd': 4, 'get': 2, 'dump': 3, 'copy': 1, 'mut': 0.5},
    'intr': 0.0,
    'gran': {'hook': 3, 'line': 5, 'opcode': 2},
    'ctxcopy': 0.15,
    'churn': 0.0,
    'dumpfault': 0.15,
    'wide': 0.03,           # a data mapping/class much larger than usual
    'misuse': 0.04,         # an operation is called, or a callback answers, in a way that is a TypeError
    'reuse': 0.0,           # a failure is one that another schema reported
    'inst': 0.2,            # a nested schema is given as an instance
    'readrepr': 0.0,         # a callback prints the instance
    'stall': 0.0,            # a callback does not return before everybody else is done
    'co': 0.4,               # a value of a lenient field converts itself
    'waste': 0.04,           # instances were made and dropped just before: addresses are used again
    'deep': 0.02,           # a chain of nested schemas longer than usual
}

PROFILES = {
    'C01': {'opmix': {'new': 1, 'set': 1, 'upd': 8, 'get': 1, 'dump': 0.5, 'copy': 0.5, 'mut': 0}, 'hard': 0.3,
            'intr': 0.25, 'frozen_field': 0.3, 'frozen_schema': 0.03, 'selfset': 0.12, 'selfupd': 0.2, 'optional': 0.5},
    'C02': {'opmix': {'new': 2, 'set': 8, 'upd': 3, 'get': 6, 'dump': 1, 'copy': 1, 'mut': 0}, 'intr': 0.15,
            'selfset': 0.1, 'selfupd': 0.06, 'frozen_schema': 0.03},
    'C03': {'reuse': 0.03, 'dup': 0.4, 'soft': 0.4, 'hard': 0.02, 'missing': 0.25, 'unknown': 0.35, 'none_bad': 0.2, 'nested': 0.06,
            'vals': [(0, 2), (1, 3), (2, 4), (3, 3)], 'dumpfault': 0.35},
    'C04': {'reuse': 0.08, 'soft': 0.35, 'nested': 0.35, 'probe': 0.6, 'unknown': 0.25, 'lk': 0.55, 'hard': 0.04,
            'dumpfault': 0.3},
    'C05': {'misuse': 0.08, 'hard': 0.35, 'soft': 0.25, 'nested': 0.3, 'none': 0.6, 'dumpfault': 0.3},
    'C07': {'frozen_field': 0.5, 'frozen_schema': 0.35, 'soft': 0.12, 'nested': 0.2, 'selfset': 0.25, 'intr': 0.1,
            'opmix': {'new': 2, 'set': 6, 'upd': 6, 'get': 2, 'dump': 1, 'copy': 2, 'mut': 0}},
    'C08': {'opmix': {'new': 1, 'set': 4, 'upd': 4, 'get': 2, 'dump': 1, 'copy': 5, 'mut': 4}, 'hard': 0.2, 'copyset': 0.15},
    'C09': {'inst': 0.35, 'inherit': 0.45, 'opmix': {'new': 2, 'set': 2, 'upd': 1.5, 'get': 0.5, 'dump': 9, 'copy': 1, 'mut': 0}, 'soft': 0.05,
            'dumpfault': 0.4, 'dk': 0.5, 'optional': 0.5, 'default': 0.25,
            'kinds': dict(DEFAULT['kinds'], obj=8)},
    'C10': {'dual': 0.15, 'twins': 0.3, 'soft': 0.25, 'vals': [(0, 1), (1, 3), (2, 4), (3, 4), (4, 2), (12, 0.3)], 'raw': 0.5, 'none': 0.5, 'churn': 0.5,
            'read': 0.3},
    'C13': {'nested': 0.25, 'soft': 0.15, 'vals': [(0, 1), (1, 3), (2, 3)], 'dumpfault': 0.1},
    'C14': {'pre': 0.9, 'post': 0.9, 'missing': 0.15, 'opmix': {'new': 6, 'set': 2, 'upd': 3, 'get': 0.5,
            'dump': 1, 'copy': 1.5, 'mut': 0}, 'hard': 0.15},
    'C17': {'optional': 0.8, 'default': 0.8, 'missing': 0.5, 'soft': 0.08, 'pre': 0.9,
            'opmix': {'new': 6, 'set': 2, 'upd': 3, 'get': 3, 'dump': 1, 'copy': 1.5, 'mut': 0}},
    'C18': {'reuse': 0.03, 'hard': 0.6, 'soft': 0.15, 'dumpfault': 0.35, 'kinds': dict(DEFAULT['kinds'], obj=9)},
    'C22': {'hard': 0.25, 'intr': 0.08, 'soft': 0.25, 'dumpfault': 0.25, 'nested': 0.15, 'waste': 0.0, 'churn': 0.1,
            'opmix': {'new': 4, 'set': 4, 'upd': 4, 'get': 2, 'dump': 4, 'copy': 2, 'mut': 0.5}, 'kinds': dict(DEFAULT['kinds'], texpr=3, tdict=2)},
    'C23': {'stall': 0.1, 'threads': [(2, 3), (3, 3), (4, 2)], 'hard': 0.2, 'soft': 0.25, 'intr': 0.08, 'churn': 0.4, 'nested': 0.15,
            'dumpfault': 0.3},
    'C24': {'opmix': {'new': 2, 'set': 2, 'upd': 2, 'get': 0.5, 'dump': 0.5, 'copy': 1, 'mut': 0, 'repr': 8}, 'readrepr': 0.3,
            'optional': 0.5, 'intr': 0.05, 'stall': 0.02, 'frozen_schema': 0.03, 'hard': 0.2, 'dumpfault': 0.2,
            'kinds': dict(DEFAULT['kinds'], sim=10)},
    'MIX': {},
}


SHOWS = ['repr', 'repr', 'str', 'fmt', 'pct']
DEFAULT_FNS = ['fn', 'fn', 'cls', 'partial', 'method', 'obj', 'static']


def wchoice(r, pairs):
    if isinstance(pairs, dict):
        pairs = [(k, v) for k, v in pairs.items()]
    tot = sum(w for _, w in pairs)
    x = r.random() * tot
    for k, w in pairs:
        x -= w
        if x < 0:
            return k
    return pairs[-1][0]


# -- labelled values of the built-in fields --------------------------------------

def V(t, x, **kw):
    d = {'$v': t, 'x': x}
    d.update(kw)
    return d


def good(t, x, f=None):
    return V(t, x, ok=1, f=M.canon_plain(x if f is None else f))


def bad(t, x, code, ne=1):
    return V(t, x, ok=0, code=code, ne=ne)


def strict(fs):
    return fs['kind'] not in ('int', 'str', 'float', 'bool') or fs.get('strict', True)


def builtin_value(r, fs, ok):
    kind = fs['kind']
    strict = fs.get('strict', True)
    n = r.choice([0, 1, 2, 3, 5, 7, 10, -1, 50, 1000])
    s = r.choice(['', 'a', 'b', 'abc', 'cab', 'xyz', 'hello world', 'é'])
    if r.random() < 0.01:
        s = 'k=v, ' * 600
    idt, tvf = 'invalid_datatype', 'type_validation_failed'
    if kind == 'int':
        if ok:
            if strict or r.random() < 0.4:
                return good('int', n)
            return r.choice([good('str', str(n), n), good('float', n + 0.5 if n >= 0 else float(n), n)])
        if strict:
            return r.choice([bad('str', 'x', idt), bad('float', 1.5, idt), bad('list', [1], idt), bad('str', '5', idt)])
        return r.choice([bad('str', 'abc', 'coercion_failed'), bad('str', '', 'coercion_failed'),
                         bad('list', [], 'coercion_failed')])
    if kind == 'str':
        if ok or not strict:
            if strict or r.random() < 0.4:
                return good('str', s)
            return r.choice([good('int', n, str(n)), good('float', 1.5, '1.5'), good('list', [1], '[1]')])
        return r.choice([bad('int', n, idt), bad('list', ['a'], idt), bad('plain', True, idt)])
    if kind == 'float':
        if ok:
            if strict or r.random() < 0.4:
                return good('float', n + 0.25)
            return r.choice([good('int', n, float(n)), good('str', '1.5', 1.5)])
        if strict:
            return r.choice([bad('int', n, idt), bad('str', '1.5', idt)])
        return r.choice([bad('str', 'zz', 'coercion_failed'), bad('list', [], 'coercion_failed')])
    if kind == 'bool':
        if ok:
            if strict or r.random() < 0.4:
                return good('plain', r.random() < 0.5)
            return r.choice([good('str', 'yes', True), good('str', 'False', False), good('int', 1, True),
                             good('int', 0, False)])
        if strict:
            return r.choice([bad('int', 1, idt), bad('str', 'True', idt), bad('int', 0, idt)])
        return r.choice([bad('str', 'maybe', 'coercion_failed'), bad('int', 2, 'coercion_failed')])
    if kind == 'any':
        return r.choice([good('int', n), good('str', s), good('list', [1, 'a']), good('dict', {'k': 1}),
                         good('plain', False), good('plain', 0), good('tuple', {'$t': [1, 2]})])
    ta = fs.get('targs', ())
    if kind == 'list':
        if ok:
            return good('list', r.choice([[], [1], [1, 2, 3]]))
        if ta and r.random() < 0.6:
            return r.choice([bad('list', [1, 'a', 'b'], tvf, 2), bad('list', ['x'], tvf), bad('list', [None, 2], tvf)])
        return r.choice([bad('str', 'x', idt), bad('tuple', {'$t': [1]}, idt), bad('dict', {}, idt)])
    if kind == 'dict':
        if ok:
            return good('dict', r.choice([{}, {'a': 1}, {'x': 1, 'y': 2}]))
        if ta and r.random() < 0.6:
            return r.choice([bad('dict', {'a': 'x', 'b': 'y'}, tvf, 2), bad('dict', {'$d': [[1, 1]]}, tvf),
                             bad('dict', {'a': 1, 'b': None}, tvf)])
        return r.choice([bad('str', 'x', idt), bad('list', [1], idt)])
    if kind == 'set':
        if ok:
            return good('set', {'$set': r.choice([[], [1], [1, 2, 3]])})
        if ta and r.random() < 0.6:
            return r.choice([bad('set', {'$set': ['x']}, tvf), bad('set', {'$set': ['x', 'y', 1]}, tvf, 2)])
        return r.choice([bad('str', 'x', idt), bad('list', [1], idt)])
    if kind == 'lit':
        if ok:
            x = r.choice(fs['targs'])
            return good('int' if isinstance(x, int) else 'str', x)
        return r.choice([bad('str', 'zz', 'invalid_value'), bad('int', 77, 'invalid_value'),
                         bad('list', [1], 'invalid_value')])
    if kind == 'union':
        if ok:
            return r.choice([good('int', n), good('str', s)])
        return r.choice([bad('float', 1.5, 'invalid_value'), bad('list', [], 'invalid_value')])
    if kind == 'tdict':
        if ta[0] == 'td1':
            if ok:
                return good('dict', {'a': n, 'b': s})
            return r.choice([bad('dict', {'a': 1}, tvf), bad('dict', {'a': 's'}, tvf, 2), bad('dict', {}, tvf, 2),
                             bad('dict', {'a': 1, 'b': 's', 'z': 1}, tvf), bad('list', [1], idt)])
        if ok:
            return r.choice([good('dict', {}), good('dict', {'a': n}), good('dict', {'a': 1, 'l': [1, 2]})])
        return r.choice([bad('dict', {'a': 's'}, tvf), bad('dict', {'l': 'x'}, tvf), bad('dict', {'q': 1}, tvf),
                         bad('str', 'x', idt)])
    if kind == 'texpr':
        g, b = TEXPR[ta[0]]
        if ok:
            t, x = r.choice(g)
            return good(t, x)
        t, x, ne = r.choice(b)
        return bad(t, x, tvf, ne)
    raise KeyError(kind)


TEXPR = {
    'list_int': ([('list', []), ('list', [1, 2])], [('list', ['a', 'b'], 2), ('str', 'x', 1)]),
    'dict_str_int': ([('dict', {}), ('dict', {'a': 1})], [('dict', {'a': 'x'}, 1), ('list', [], 1)]),
    'u_int_str': ([('int', 4), ('str', 'x')], [('float', 1.5, 1), ('list', [1], 1)]),
    'tup': ([('tuple', {'$t': [1, 'a']})], [('tuple', {'$t': ['a', 1]}, 2), ('tuple', {'$t': [1]}, 1), ('list', [1, 'a'], 1)]),
    'seq_int': ([('list', [1]), ('list', [])], [('list', ['a'], 1)]),
    'set_int': ([('set', {'$set': [1, 2]})], [('set', {'$set': ['q']}, 1)]),
    'lit_ab': ([('str', 'a'), ('str', 'b')], [('str', 'c', 1), ('int', 1, 1)]),
    'list_td1': ([('list', [{'a': 1, 'b': 'x'}])], [('list', [{'a': 1}], 1), ('list', [{'a': 1}, 5], 2)]),
    'dict_list': ([('dict', {'k': [1, 2]})], [('dict', {'k': [1, 'x']}, 1), ('dict', {'k': 5, 'j': ['s']}, 2)]),
    'td1': ([('dict', {'a': 1, 'b': 'x'})], [('dict', {'a': 1}, 1), ('dict', {'z': 1}, 3)]),
}


def builtin_validator(r, kind, vid):
    if kind in ('int', 'float'):
        c = r.choice(['range', 'exclude'])
    elif kind in ('str', ):
        c = r.choice(['length', 'regex', 'exclude'])
    elif kind in ('list', 'dict', 'set'):
        c = 'length'
    else:
        return None
    if c == 'range':
        args = r.choice([[5], [0, 10], [-5, 3], [2, 2]])
    elif c == 'exclude':
        args = r.choice([[1, 2], [0], ['a'], ['a', 'abc', 5], [1.25]])
    elif c == 'length':
        args = r.choice([{'min': 1}, {'max': 2}, {'min': 1, 'max': 3}, {'exact': 3}])
    else:
        args = r.choice([['[a-c]+'], ['[a-c]+', {'full_match': True}], ['l', {'search': True}]])
    return {'id': vid, 'kind': c, 'args': args, 'via': 'init'}


def rejects(vs, x):
    """Whether a built-in validator rejects final value x (a plain Python value)."""
    k = vs['kind']
    a = vs['args']
    if k == 'range':
        lb, ub = (0, a[0]) if len(a) == 1 else a
        return not (float(x) == int(x) and lb <= x <= ub)
    if k == 'exclude':
        return x in a
    if k == 'length':
        n = len(x)
        if 'exact' in a:
            return n != a['exact']
        return n < a.get('min', 0) or n > a.get('max', 10 ** 9)
    if k == 'regex':
        kw = a[1] if len(a) > 1 else {}
        f = re.fullmatch if kw.get('full_match') else re.search if kw.get('search') else re.match
        return f(a[0], x) is None


def from_canon(c):
    if c is None:
        return None
    t, x = c
    if t == 'float':
        return float(x)
    if t in ('list', 'tuple', 'set'):
        return [from_canon(i) for i in x]
    if t == 'dict':
        return {k: from_canon(v) for k, v in x}
    return x


def assignable(f):
    """A callback may assign to the field: that ends with at most a validation failure."""
    return f.spec['kind'] == 'sim' and f.spec.get('fmt') != 'bad'


def no_selfset(v):
    """Whether it runs before or after a hard fault is not specified."""
    for st, acts in (v.get('b') or {}).items() if isinstance(v, dict) else ():
        acts[:] = [a for a in acts if a['a'] not in ('selfset', 'selfupd')]


class Gen:
    def __init__(self, profile, seed, params=None):
        self.r = random.Random('%s/%d' % (profile, seed))
        self.P = dict(DEFAULT)
        self.P.update(PROFILES.get(profile, {}))
        if params:
            self.P.update(params)
        self.n = 0
        self.scn = {'v': 1, 'profile': profile, 'seed': seed, 'classes': []}
        self.mc = {}
        self.shared_vals = []
        self.cand = None
        self.depth = 0
        self.gid = 0
        self.clean = False
        self.env = {}
        self.target = None

    def uid(self, p='u'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def chance(self, k):
        return self.r.random() < self.P[k]

    # -- classes ------------------------------------------------------------------

    def classes(self):
        r = self.r
        n = r.randint(*self.P['classes'])
        self.deep = self.chance('deep')
        if self.deep:
            n = r.randint(6, 9)
            self.P = dict(self.P, fields=(1, 2), copy_of=0, twins=0, inherit=0, wide=0)
        for i in range(n):
            self.one_class('S%d' % i)
        self.mc = M.flatten(self.scn)

    def one_class(self, name):
        r = self.r
        scn = self.scn
        spec = {'name': name, 'fields': []}
        inherited = {}
        if scn['classes'] and self.chance('inherit'):
            b = r.choice(scn['classes'])['name']
            spec['bases'] = [b]
            inherited = M.flatten(scn)[b].fields
        hi = self.P['fields'][1]
        nf = r.randint(*self.P['fields'])
        if r.random() < self.P['wide']:
            nf = r.choice([12, 12, 30, 70])
            names = ['w%d' % i for i in range(nf)]
        else:
            names = NAMES[:]
            r.shuffle(names)
        if spec.get('bases') and r.random() < 0.4:
            nf = min(nf, 2)
        chosen = names[:nf]
        used_lk = {f.lk for n, f in inherited.items() if n not in chosen}
        used_dk = {f.dk for n, f in inherited.items() if n not in chosen}
        # names of inherited fields also stay reserved as keys of those fields
        perm = chosen[:]
        r.shuffle(perm)
        swap = r.random() < 0.3
        for idx, n in enumerate(chosen):
            fs = self.field(name, n, force='obj' if self.deep and scn['classes'] and not idx else None)
            lk = n
            if swap and perm[idx] not in used_lk:
                lk = perm[idx]
            elif not swap and self.chance('lk'):
                lk = r.choice(['K_' + n, n.upper(), n + '-key', 'K.' + n, ' ' + n])
            if fs.get('copy_of'):
                src = M.flatten(scn)[fs['copy_of'][0]].fields[fs['copy_of'][1]]
                lk = src.spec.get('lk', n)
                dk = src.spec.get('dk', n)
                if lk in used_lk or dk in used_dk or swap or lk in chosen and lk != n or dk in chosen and dk != n:
                    fs = self.field(name, n, copy_ok=False)
                    lk = perm[idx] if swap and perm[idx] not in used_lk else n
                else:
                    used_lk.add(lk)
                    used_dk.add(dk)
                    spec['fields'].append(fs)
                    continue
            if lk in used_lk:
                lk = n
                if lk in used_lk:
                    continue
            if lk != n:
                fs['lk'] = lk
            used_lk.add(lk)
            dk = n
            if self.chance('dk'):
                dk = r.choice(['D_' + n, n * 2, lk])
            if dk in used_dk or (dk in chosen and dk != n):
                dk = n
            if dk in used_dk:
                dk = 'D_' + n
            if dk != n:
                fs['dk'] = dk
            used_dk.add(dk)
            if fs.get('lk') and fs.get('lk') == fs.get('dk') and r.random() < 0.5:
                fs['data_key'] = True
            spec['fields'].append(fs)
        if self.chance('twins') and not spec.get('bases'):
            self.twins(spec)
        if spec.get('bases'):
            own = {f['n'] for f in spec['fields']}
            for n in inherited:
                if n not in own and self.chance('xval'):
                    v = {'id': self.uid('v'), 'kind': 'fn', 'via': 'decostr'}
                    if self.chance('raw'):
                        v['raw'] = True
                        self.on_none(v)
                    spec.setdefault('xvals', []).append({'f': n, 'v': v})
        while True:
            fl = M.flatten({'classes': scn['classes'] + [dict(spec, xvals=[])]})[name].fields.values()
            if len({f.lk for f in fl}) == len(fl) == len({f.dk for f in fl}):
                break
            n = spec['fields'].pop()['n']
            spec['xvals'] = [x for x in spec.get('xvals', ()) if x['f'] != n]
        cfg = {}
        if self.chance('frozen_schema'):
            cfg['frozen'] = True
        if r.random() < 0.15:
            cfg['ignore_extra'] = True
        if r.random() < 0.15:
            cfg['slotted'] = False
        if r.random() < 0.1:
            cfg['add_repr'] = False if not self.P['readrepr'] else True
        if cfg:
            spec['config'] = cfg
        elif spec.get('bases') and r.random() < 0.1:
            spec['config'] = {}
        if self.chance('pre'):
            spec['pre'] = r.choice(['id', 'id', 'id', 'rebuild', 'plain', 'proxy', 'drop'])
        if self.chance('post'):
            spec['post'] = True
        if self.chance('ctor'):
            spec['ctor'] = True
        if r.random() < 0.1:
            spec['helper'] = True
        if r.random() < 0.1:
            spec['own_repr'] = True
        scn['classes'].append(spec)

    def twins(self, spec):
        """Fields alike in everything but the name, as far as that is possible."""
        r = self.r
        c = [f for f in spec['fields'] if not f.get('copy_of')]
        if not c:
            return
        src = r.choice(c)
        if r.random() < 0.5:
            src['kind'] = r.choice(['int', 'any', 'str'])
            for k in ('targs', 'cls', 'ik', 'dflt'):
                src.pop(k, None)
            vals = [dict(v) for v in src.get('vals', ()) if v['kind'] in ('fn', 'obj') and not v.get('dual')]
            src['vals'] = vals or [{'id': self.uid('v'), 'kind': 'fn', 'via': 'init'}]
        pos = spec['fields'].index(src)
        for n in r.sample(['tw1', 'tw2'], r.choice([1, 1, 2])):
            fs = {k: v for k, v in src.items() if k not in ('lk', 'dk', 'data_key')}
            fs = json.loads(json.dumps(fs))
            fs['n'] = n
            fs['twin'] = src['n']
            for v in fs.get('vals', ()):
                if v['via'] in ('deco', 'decostr'):
                    v['via'] = 'add'
            spec['fields'].insert(pos + 1, fs)

    def on_none(self, v):
        if self.r.random() < 0.4:
            v['on_none'] = {'a': 'raise', 'soft': 1, 'e': self.r.choice(['ValueError', 'AssertionError', 'FieldError']),
                            'tok': 'N' + v['id'], 'msgs': ['N' + v['id']]}

    def field(self, cname, n, copy_ok=True, force=None):
        r = self.r
        kind = force or wchoice(r, self.P['kinds'])
        if self.deep and kind == 'obj' and not force:
            kind = 'sim'
        fs = {'n': n, 'kind': kind}
        prev = [c for c in self.scn['classes'] if c['fields']]
        if copy_ok and prev and self.chance('copy_of'):
            c = r.choice(prev)
            f = r.choice(c['fields'])
            out = {'n': n, 'kind': f['kind'], 'copy_of': [c['name'], f['n']]}
            out['kind'] = M.flatten(self.scn)[c['name']].fields[f['n']].spec['kind']
            if r.random() < 0.5:
                v = self.val_spec(out['kind'], deco_ok=True)
                if v['via'] != 'init':
                    out['vals'] = [v]
            return out
        if kind == 'obj':
            if not self.scn['classes']:
                fs['kind'] = kind = 'sim'
            else:
                fs['cls'] = self.scn['classes'][-1]['name'] if self.deep else r.choice(self.scn['classes'])['name']
                if r.random() < 0.25:
                    fs['ik'] = r.choice([{'ignore_extra': True}, {'state': {'k': 1}}, {'ignore_extra': False},
                                         {'state': 5, 'ignore_extra': True}])
        if kind in ('int', 'str', 'float', 'bool') and r.random() < 0.5:
            fs['strict'] = False
        if kind in ('list', 'set') and r.random() < 0.6:
            fs['targs'] = ['int']
        if kind == 'dict' and r.random() < 0.6:
            fs['targs'] = ['str', 'int']
        if kind == 'lit':
            fs['targs'] = r.choice([['a', 'b'], ['x'], [1, 2, 'z']])
        if kind == 'union':
            fs['targs'] = ['int', 'str']
        if kind == 'texpr':
            fs['targs'] = [r.choice(sorted(TEXPR))]
        if kind == 'tdict':
            fs['targs'] = [r.choice(['td1', 'td2'])]
        if self.chance('none'):
            fs['none'] = True
        if self.chance('frozen_field'):
            fs['frozen'] = True
        if self.chance('optional'):
            if self.chance('default'):
                if r.random() < 0.5:
                    fs['dflt'] = {'fn': r.choice(DEFAULT_FNS)}
                    if r.random() < 0.4:
                        fs['dflt']['ret'] = r.choice(['falsy', 'falsy', 'none'])
                else:
                    fs['dflt'] = {'val': r.choice([None, 0, 'dflt', 7, False, ''])}
                    if kind == 'obj':
                        fs['dflt']['val'] = None
                if kind == 'obj' and fs['dflt'].get('fn'):
                    fs['dflt'] = {'val': None}
            else:
                fs['req'] = False
        if self.chance('fmt'):
            fs['fmt'] = r.choice(['str', 'err', 'none', 'partial'])
            if self.P['misuse'] and r.random() < 0.05:
                fs['fmt'] = 'bad'
        vals = []
        seen = set()
        for _ in range(wchoice(r, self.P['vals'])):
            v = self.val_spec(kind)
            if v['id'] not in seen:
                seen.add(v['id'])
                vals.append(v)
        if kind == 'sim' and self.P['dual'] and self.chance('dual'):
            vid = self.uid('v')
            pair = [{'id': vid, 'kind': 'fn', 'via': r.choice(['init', 'add']), 'dual': vid},
                    {'id': vid + 'r', 'kind': 'fn', 'via': 'add', 'raw': True, 'dual': vid}]
            self.on_none(pair[1])
            r.shuffle(pair)
            for v in pair:
                vals.insert(r.randint(0, len(vals)), v)
        if vals:
            fs['vals'] = vals
        return fs

    def val_spec(self, kind, deco_ok=True):
        r = self.r
        vid = self.uid('v')
        if self.chance('builtin_val'):
            v = builtin_validator(r, kind, vid)
            if v is not None:
                if r.random() < 0.2:
                    subs = [dict(v, id=vid + 'x')]
                    if r.random() < 0.6:
                        subs.append({'id': vid + 'y', 'kind': r.choice(['fn', 'obj']), 'via': 'sub'})
                    if r.random() < 0.4:
                        w = builtin_validator(r, kind, vid + 'z')
                        subs.append(w)
                    r.shuffle(subs)
                    return {'id': vid, 'kind': 'or', 'subs': subs, 'via': r.choice(['init', 'add'])}
                v['via'] = r.choice(['init', 'add'])
                return v
        pool = [s for s in self.shared_vals]
        if pool and self.chance('shared'):
            return dict(r.choice(pool))
        v = {'id': vid, 'kind': r.choice(['fn', 'fn', 'obj'])}
        if self.chance('raw'):
            v['raw'] = True
            self.on_none(v)
        if v['kind'] == 'obj':
            v['via'] = r.choice(['init', 'add'])
            self.shared_vals.append(v)
        elif v.get('raw'):
            v['via'] = r.choice(['add', 'deco', 'decostr'])
        else:
            v['via'] = r.choice(['init', 'add', 'deco', 'decostr'])
            if v['via'] in ('init', 'add') and r.random() < 0.5:
                self.shared_vals.append(v)
        return v

    # -- behaviours ---------------------------------------------------------------

    def text(self, p):
        return self.r.choice(['dup', 'dup', 'two\nlines', 'In field a:']) if self.chance('dup') else self.uid(p)

    def soft_raise(self):
        r = self.r
        if self.P['reuse'] and self.chance('reuse'):
            return {'a': 'raise', 'soft': 1, 'e': 'Reuse', 'tok': self.text('t')}
        e = r.choice(SOFTS)
        a = {'a': 'raise', 'soft': 1, 'e': e, 'tok': self.text('t')}
        if e in ('FieldError', 'MyFE'):
            n = wchoice(r, [(1, 5), (2, 2), (3, 1)])
            a['msgs'] = [self.text('m') for _ in range(n)]
            if r.random() < 0.2:
                a['msgs'][0] = r.choice([7, '', None, 0, 1.5, 'dup'])
            if n > 1 and r.random() < 0.2:
                a['msgs'][-1] = a['msgs'][0]
            a['mt'] = 'str' if n == 1 and r.random() < 0.7 else r.choice(['list', 'tuple', 'set'])
            if r.random() < 0.4:
                a['state'] = r.choice([self.uid('st'), 0, 5, {'k': 1}])
        elif e not in ('UnicodeError', 'Both') and r.random() < 0.12:
            a['empty'] = 1
        return a

    def hard_raise(self):
        return {'a': 'raise', 'e': self.r.choice(HARDS), 'tok': self.uid('h')}

    def stage_acts(self, cls, st, mode, exclude=(), own=None):
        """Extra actions for a stage, without the final raise."""
        r = self.r
        acts = []
        if self.clean:
            return acts
        if self.depth < 2 and self.n < MAXN and r.random() < self.P['nested'] / (1 + 2 * self.depth):
            acts.append({'a': 'run', 'how': r.choice(['same', 'same', 'copy', 'fresh']), 'prog': self.program(nested=True)})
            if r.random() < 0.7:
                acts.append({'a': 'probe'})
        if self.chance('probe'):
            acts.append({'a': 'probe'})
        if self.P['stall'] and self.chance('stall'):
            acts.insert(r.randint(0, len(acts)), {'a': 'stall'})
        if st != 'dump' and cls is not None and self.chance('read'):
            fn = r.choice(sorted(cls.fields))
            acts.append({'a': r.choice(['read', 'read', 'readattr', 'readdump']), 'f': fn, 'id': self.uid('r')})
        if st != 'dump' and cls is not None and self.P['readrepr'] and self.chance('readrepr'):
            acts.append({'a': 'readrepr', 'via': r.choice(SHOWS), 'how': r.choice(['same', 'same', 'fresh', 'copy']), 'id': self.uid('r')})
        if st != 'dump' and cls is not None and self.chance('copyset'):
            a = self.copyset(cls)
            if a:
                acts.append(a)
        if mode == 'upd' and cls is not None and self.depth == 0 and self.chance('selfset'):
            c = [f for f in cls.fields.values() if f.name not in exclude and assignable(f)]
            if own is not None and assignable(own) and r.random() < 0.3:
                c = [own]
            if c:
                f = r.choice(c)
                v = {'$s': 1, 'u': self.uid()}
                if f.name in exclude or own is f:
                    # which of the two values would stay is not specified
                    v['b'] = {'load': [self.soft_raise()]}
                acts.append({'a': 'selfset', 'f': f.name, 'v': v, 'id': self.uid('r')})
        if mode == 'upd' and cls is not None and self.depth == 0 and self.chance('selfupd'):
            a = self.selfupd(cls, exclude)
            if a:
                acts.append(a)
                if r.random() < 0.7:
                    acts.append({'a': 'probe'})
        if mode and self.P['churn'] and r.random() < 0.15 and self.scn.get('flex'):
            acts.append(self.churn_act())
        return acts

    def copyset(self, cls):
        c = [f for f in cls.fields.values() if assignable(f)]
        if not c:
            return None
        return {'a': 'copyset', 'f': self.r.choice(c).name, 'v': {'$s': 1, 'u': self.uid()}, 'id': self.uid('r')}

    def selfupd(self, cls, exclude=()):
        """An update of the instance being processed, by one of its own callbacks."""
        r = self.r
        c = [f for f in cls.fields.values() if f.name not in exclude and assignable(f)
             and not f.spec.get('frozen')]
        if not c:
            return None
        items = []
        for f in r.sample(c, r.randint(1, min(3, len(c)))):
            v = {'$s': 1, 'u': self.uid()}
            if r.random() < 0.3:
                v['b'] = {'load': [{'a': 'raise', 'soft': 1, 'e': 'ValueError', 'tok': self.uid('t')}]}
            items.append([f.lk, v])
        if r.random() < 0.25:
            items.insert(r.randint(0, len(items)), [5, 1])
        return {'a': 'selfupd', 'id': self.uid('r'),
                'm': {'m': r.choice(['dict', 'spy']), 'i': items, 'u': self.uid('M'), 'b': {}}}

    def churn_act(self, only=None):
        r = self.r
        c = r.choice(only or self.churnable)
        return {'a': 'churn', 'f': c[0], 'vid': c[1]['id'], 'v': c[1], 'raw': bool(c[1].get('raw')),
                'w': r.choice(['rm', 'add', 'rmadd'])}

    def decorate(self, v, mf, cls, mode, exclude=(), failp=None):
        """Gives behaviours to a value destined to field mf."""
        r = self.r
        if self.clean:
            return
        b = {}
        stages = ['load']
        for x in mf.vals:
            if x['id'] in self.scn.get('flex', ()):
                continue
            if x['kind'] in ('fn', 'obj'):
                stages.append(('raw:' if x.get('raw') else 'val:') + x['id'])
            elif x['kind'] == 'or':
                stages += ['val:' + s['id'] for s in x['subs'] if s['kind'] in ('fn', 'obj')]
        ors = {'val:' + s['id'] for x in mf.vals if x['kind'] == 'or' for s in x['subs']}
        reached = set()         # members of an Or that are certain to be called
        for x in mf.vals:
            if x['kind'] == 'or':
                for s in x['subs']:
                    reached.add('val:' + s['id'])
                    if s['id'] not in v.get('vf', ()):
                        break
        for st in stages:
            acts = self.stage_acts(cls, st, mode, exclude, mf) if st not in ors else []
            p = self.P['soft'] if failp is None else failp
            if st == 'load':
                p /= 2
            if r.random() < p:
                acts.append(self.soft_raise())
            if acts:
                b[st] = acts
            if st not in ors or st in reached:
                self.cand.append((b, st))
        if v.get('$v') == 'co':
            acts = []
            if self.depth < 2 and self.n < MAXN and r.random() < self.P['nested'] / (1 + 2 * self.depth):
                acts.append({'a': 'run', 'how': r.choice(['same', 'copy', 'fresh']), 'prog': self.program(nested=True)})
            if r.random() < self.P['soft'] / 2:
                acts.append(self.soft_raise())
            if acts:
                b['co'] = acts
            self.cand.append((b, 'co'))
        if mf.spec['kind'] == 'sim' and r.random() < self.P['dumpfault'] / 4:
            acts = self.stage_acts(None, 'dump', None)
            if r.random() < 0.7:
                acts.append(self.soft_raise())
            elif r.random() < 0.4:
                acts.append(self.hard_raise())
            b['dump'] = acts
        v['b'] = b

    # -- values -------------------------------------------------------------------

    def value(self, mf, cls, mode, slots, exclude=(), allow_bad=True):
        r = self.r
        fs = mf.spec
        kind = fs['kind']
        failing = allow_bad and not self.clean
        if r.random() < (0.15 if fs.get('none') else (self.P['none_bad'] if failing else 0)):
            return None
        if kind == 'sim':
            if r.random() < 0.12:
                return r.choice([0, '', False, 'plain', 12, 1.5])
            v = {'$s': 1, 'u': self.uid()}
            self.decorate(v, mf, cls, mode, exclude)
            return v
        if kind == 'obj':
            c = fs['cls']
            if slots and r.random() < self.P['inst']:
                s = r.choice(slots)
                fit = [x for x in slots if x[1] is not None and self.sub(x[1], c)]
                if fit and r.random() < 0.7:
                    sub = [x for x in fit if x[1] != c]
                    s = r.choice(sub if sub and r.random() < 0.7 else fit)
                ok = s[1] is not None and self.sub(s[1], c)
                if self.target is not None and self.contains(self.env[s[0]], self.target):
                    return None if fs.get('none') else {'m': 'plain', 'i': []}
                if ok or (failing and r.random() < 0.15):
                    return {'$i': s[0]}
            if failing and r.random() < self.P['soft'] / 2:
                v = r.choice([bad('int', 5, 'invalid_datatype'), bad('str', 'x', 'invalid_datatype'),
                              bad('list', [1], 'invalid_datatype')])
                v = dict(v, u=self.uid())
                return v
            v = self.mapping(c, 'new', slots)
            if v['m'] != 'plain':
                b = v.get('b')
                self.decorate(v, mf, cls, mode, exclude)
                if b:
                    v.setdefault('b', {}).update(b)
            return v
        ok = not (failing and r.random() < self.P['soft'])
        v = dict(builtin_value(r, fs, ok))
        plain = r.random() < 0.2
        if plain and v['$v'] in ('int', 'str', 'float', 'list', 'dict'):
            v['$v'] = 'plain'
        v['u'] = self.uid()
        if v['ok']:
            x = from_canon(v['f'])
            vf = []
            for vs in mf.vals:
                for s in ([vs] if vs['kind'] != 'or' else vs['subs']):
                    if s['kind'] in ('range', 'exclude', 'length', 'regex'):
                        if rejects(s, x):
                            vf.append(s['id'])
            if vf:
                v['vf'] = vf
        if v['ok'] and not strict(fs) and not plain and 'vf' not in v and r.random() < self.P['co']:
            # an object whose conversion is user code
            v['$v'], v['x'] = 'co', v['f'][1] if fs['kind'] != 'bool' else 'yes' if v['f'][1] else 'no'
        if v['$v'] != 'plain':
            self.decorate(v, mf, cls, mode, exclude)
        return v

    def same_values(self, cls, items):
        """The very same (immortal) object for fields that are alike, one after the other."""
        r = self.r
        for f in list(cls.fields.values()):
            t = cls.fields.get(f.spec.get('twin'))
            if t is None or t.spec['kind'] != f.spec['kind'] or r.random() < 0.3 or \
                    [v['id'] for v in t.vals] != [v['id'] for v in f.vals] or t.spec.get('none') != f.spec.get('none'):
                continue
            at = [n for n, i in enumerate(items) if i[0] in (f.lk, t.lk)]
            if len(at) != 2:
                continue
            kind = f.spec['kind']
            x = {'int': r.choice([0, 1, 5, 10]), 'str': r.choice(['', 'a']), 'any': r.choice([0, 1, '', 'a', False])}.get(kind)
            if f.spec.get('none') and r.random() < 0.2:
                v = None
            elif x is None or kind == 'sim':
                continue
            else:
                v = dict(good('plain', x))
                vf = [s['id'] for vs in f.vals for s in ([vs] if vs['kind'] != 'or' else vs['subs'])
                      if s['kind'] in ('range', 'exclude', 'length', 'regex') and rejects(s, x)]
                if vf and self.clean:
                    continue
                if vf:
                    v['vf'] = vf
            if v is not None:
                v['u'] = self.uid()
            first, second = (f, t) if r.random() < 0.5 else (t, f)
            items[at[0]] = [first.lk, v]
            del items[at[1]]
            items.insert(at[0] + 1, [second.lk, dict(v) if v else v])

    def contains(self, a, b):
        """Whether instance b is a, or is nested in it at any depth."""
        return a is b or any(isinstance(v, M.MN) and self.contains(v.inst, b) for v in a.vals.values())

    def sub(self, a, b):
        specs = {s['name']: s for s in self.scn['classes']}
        while a is not None:
            if a == b:
                return True
            bs = specs[a].get('bases')
            a = bs[0] if bs else None
        return False

    def mapping(self, cname, mode, slots, keys=None):
        r = self.r
        cls = self.mc[cname]
        kind = wchoice(r, [('dict', 6), ('spy', 3), ('plain', 1)])
        items = []
        fields = list(cls.fields.values())
        r.shuffle(fields)
        if mode == 'upd':
            k = r.randint(0, len(fields)) if r.random() < 0.9 else len(fields)
            fields = fields[:k]
            fields = [f for f in fields if not f.spec.get('frozen') or r.random() < 0.35]
        names = {f.name for f in fields}
        for f in fields:
            if mode == 'new':
                if f.required:
                    if not self.clean and r.random() < self.P['missing'] / 2:
                        continue
                elif r.random() < max(0.3, self.P['missing']):
                    continue
            items.append([f.lk, self.value(f, cls, mode, slots, names)])
        self.same_values(cls, items)
        if not self.clean and r.random() < self.P['unknown']:
            known = {f.lk for f in cls.fields.values()}
            pool = [k for k in ['zz', '', 'K_zz', 'self'] + sorted(cls.fields) if k not in known]
            pool += [5, '5', None, {'$t': [1, 2]}]
            for k in r.sample(pool, min(len(pool), r.choice([1, 1, 2]))):
                v = r.choice([1, 'x', None])
                if r.random() < 0.5:
                    v = {'$s': 1, 'u': self.uid()}
                items.insert(r.randint(0, len(items)), [k, v])
        if cls.pre == 'drop' and mode == 'new' and kind == 'dict' and r.random() < 0.4:
            key = '__drop__'
            if r.random() < 0.4 and (not self.clean or not any(f.required for f in cls.fields.values())):
                key = '__empty__'
            items.insert(r.randint(0, len(items)), [key, 1])
        m = {'m': kind, 'i': items}
        if kind != 'plain':
            m['u'] = self.uid('M')
            b = {}
            if kind == 'spy' and not self.clean:
                self.cand.append((b, 'items:%d' % r.randint(0, max(0, len(items) - 1))))
            if mode == 'new' and cls.pre and not self.clean:
                if r.random() < self.P['nested'] / 2 and self.depth == 0 and self.n < MAXN:
                    b['pre'] = [{'a': 'run', 'how': r.choice(['same', 'copy', 'fresh']), 'prog': self.program(nested=True)}]
                elif self.chance('copyset'):
                    b['pre'] = [x for x in [self.copyset(cls)] if x]
                self.cand.append((b, 'pre'))
                if self.chance('misuse'):
                    b.setdefault('pre', []).append({'a': 'nonmap', 'v': r.choice([5, 'ab', [1]])})
                for f in cls.fields.values():
                    if (f.spec.get('dflt') or {}).get('fn') and f.lk not in [k for k, _ in items]:
                        acts = self.stage_acts(None, 'def', None)
                        if acts:
                            b['def:' + f.name] = acts
                        self.cand.append((b, 'def:' + f.name))
                if cls.post:
                    if r.random() < self.P['nested'] / 2 and self.depth == 0 and self.n < MAXN:
                        b['post'] = [{'a': 'run', 'how': r.choice(['same', 'copy', 'fresh']), 'prog': self.program(nested=True)}]
                    if self.depth == 0 and r.random() < self.P['selfset'] + self.P['selfupd']:
                        a = self.selfupd(cls)
                        if a:
                            b.setdefault('post', []).append(a)
                    self.cand.append((b, 'post'))
            m['b'] = b
        return m

    # -- programs -----------------------------------------------------------------

    def program(self, nested=False):
        r = self.r
        self.gid += 1
        g = 'g%d' % self.gid
        save = (self.cand, self.clean, self.env, self.target)
        self.depth += nested
        mdl = M.Model(self.scn)
        env = self.env = {}
        prog = {'g': g, 'ops': []}
        if not nested and self.chance('ctxcopy'):
            prog['ctx'] = 'copy'
        n = r.randint(1, 3) if nested else r.randint(*self.P['ops'])
        ns = 0
        for i in range(n):
            alive = [(s, v.cls.name) for s, v in env.items() if v is not None]
            k = 'new' if not alive else wchoice(r, self.P['opmix'])
            if self.chance('misuse'):
                op = {'op': 'bad', 'x': r.choice(['new', 'upd', 'dump', 'dump'] if alive else ['new']),
                      'v': r.choice([5, None, 'ab', [1], [['a', 1]]])}
                if op['x'] == 'new':
                    op['c'] = r.choice(self.scn['classes'])['name']
                else:
                    op['s'] = r.choice(alive)[0]
                mdl.step(op, env)
                prog['ops'].append(op)
                continue
            self.cand = []
            self.target = None
            intr = not nested and r.random() < self.P['intr']
            self.clean = intr or (i == 0 and r.random() < 0.75)
            op = {'op': k}
            if k == 'new':
                op['c'] = r.choice(self.scn['classes'])['name']
                op['to'] = 's%d' % ns if ns < 4 or not alive else r.choice(alive)[0]
                ns += 1
                op['m'] = self.mapping(op['c'], 'new', alive)
                if r.random() < 0.4:
                    op['state'] = r.choice([None, 0, 5, {'k': 1}, {}, [1], {'n': {'x': 1}}, {'$o': {}}, {'$o': {'k': 1}}, {'$o': {'k': 1}}])
                if r.random() < 0.2:
                    op['ie'] = r.random() < 0.5
                if self.chance('waste'):
                    op['waste'] = r.randint(2, 10)
            else:
                s, cname = r.choice(alive)
                cls = self.mc[cname]
                op['s'] = s
                self.target = env[s] if k in ('set', 'upd') else None
                if k == 'set':
                    fs = list(cls.fields.values())
                    if not fs:
                        continue
                    f = r.choice(fs)
                    op['f'] = f.name
                    op['v'] = self.value(f, cls, 'upd', alive, {f.name})
                elif k == 'upd':
                    op['m'] = self.mapping(cname, 'upd', alive)
                    if r.random() < 0.2:
                        op['ie'] = r.random() < 0.5
                elif k == 'get':
                    names = sorted(cls.fields)
                    if not names:
                        continue
                    op['n'] = r.choice(names)
                    op['via'] = r.choice(['attr', 'gv', 'gvd'])
                    if op['via'] != 'attr' and r.random() < 0.4:
                        op['n'] = r.choice([f.lk for f in cls.fields.values()])
                    elif op['via'] != 'attr' and r.random() < 0.05:
                        op['n'] = 'nope'
                    got = env[s].vals.get(op['n'])
                    if isinstance(got, M.MN) and r.random() < 0.7:
                        op['to'] = 's%d' % ns if ns < 5 else r.choice(alive)[0]
                        if op['to'] == s:
                            del op['to']
                        else:
                            ns += 1
                elif k == 'dump':
                    names = sorted(cls.fields)
                    x = r.random()
                    sel = r.sample(names, r.randint(0, len(names)))
                    if r.random() < 0.3:
                        pool = ['nope', ''] + names + [k for f in cls.fields.values() for k in (f.lk, f.dk)]
                        sel += [r.choice(pool) for _ in range(r.randint(1, 3))]
                        r.shuffle(sel)
                    if x < 0.3:
                        op['inc'] = sel
                    elif x < 0.6:
                        op['exc'] = sel
                    op['t'] = r.choice(['list', 'tuple', 'set', 'userlist', 'frozenset', 'keys'])
                    if not self.clean and self.chance('dumpfault'):
                        h = {}
                        for nm in names:
                            if r.random() < 0.4:
                                acts = self.stage_acts(None, 'dump', None)
                                if r.random() < 0.6:
                                    acts.append(self.soft_raise())
                                h[nm] = acts
                                self.cand.append((h, nm))
                        op['h'] = h
                elif k == 'copy':
                    op['to'] = 's%d' % ns if ns < 5 else r.choice(alive)[0]
                    ns += 1
                    if op['to'] == s:
                        continue
                    if isinstance(env[s].state, dict) and '$o' in env[s].state:
                        sx = []
                        if r.random() < self.P['nested'] / 2 and self.depth == 0 and self.n < MAXN:
                            sx.append({'a': 'run', 'how': r.choice(['same', 'copy', 'fresh']), 'prog': self.program(nested=True)})
                        if self.P['stall'] and self.chance('stall'):
                            sx.append({'a': 'stall'})
                        if not self.clean and r.random() < 0.3:
                            sx.append(self.hard_raise())
                        if sx:
                            op['sx'] = sx
                elif k == 'repr':
                    op['via'] = r.choice(SHOWS)
                    rx = []
                    if not self.clean and r.random() < 0.6:
                        if r.random() < self.P['nested'] and self.depth == 0 and self.n < MAXN:
                            rx.append({'a': 'run', 'how': r.choice(['same', 'copy', 'fresh']), 'prog': self.program(nested=True)})
                        if self.P['stall'] and self.chance('stall'):
                            rx.append({'a': 'stall'})
                        c = [f for f in cls.fields.values() if assignable(f) and not f.spec.get('frozen')]
                        c = [f for f in c if f.name not in env[s].vals] or c
                        if c and r.random() < 0.5 and not cls.config.get('frozen'):
                            rx.append({'a': 'selfset', 'f': r.choice(c).name, 'v': {'$s': 1, 'u': self.uid()}, 'id': self.uid('r')})
                        if r.random() < 0.3:
                            rx.append(self.hard_raise())
                    if rx:
                        op['rx'] = rx
                elif k == 'mut':
                    if env[s].shared:
                        continue
                    op['k'] = self.uid('k')
                    op['x'] = r.choice([1, 'x', 0])
                    op['replace'] = r.random() < 0.5
            if not self.clean and self.cand and self.chance('hard'):
                b, st = r.choice(self.cand)
                if k == 'set':
                    no_selfset(op['v'])
                acts = [a for a in b.get(st, ()) if a['a'] not in ('raise', 'nonmap')]
                b[st] = acts + [self.hard_raise()]
                if st.startswith('items') and b[st][-1]['e'] == 'StopIteration':
                    b[st][-1]['e'] = 'LookupError'      # it would just end the iteration
            e = mdl.step(op, env)
            if intr and e.kind == 'ok' and k != 'mut' and not (k == 'get' and 'to' in op):
                op['intr'] = int(2 ** (r.random() * 8)) + r.randint(0, 4)
                if r.random() < 0.4:
                    op['intrk'] = r.choice(['MemoryError', 'RecursionError', 'SystemExit'])
                if k in ('new', 'copy') and r.random() < 0.6:
                    del op['intr']
            prog['ops'].append(op)
        self.depth -= nested
        self.cand, self.clean, self.env, self.target = save
        return prog

    def scenario(self):
        r = self.r
        self.classes()
        if self.P['churn'] and r.random() < self.P['churn']:
            self.setup_churn()
        if self.chance('errcls'):
            self.scn['errcls'] = 1
        nt = wchoice(r, self.P['threads'])
        self.scn['threads'] = [self.program() for _ in range(nt)]
        if self.P['churn'] and self.scn.get('flex') and nt > 1 and r.random() < 0.6:
            self.scn['churner'] = [self.churn_act() for _ in range(r.randint(2, 8))]
            if r.random() < 0.4:
                # several threads change the validators of one field
                c = r.choice(self.churnable)[0]
                only = [x for x in self.churnable if x[0] == c]
                if len(only) < 2:
                    v = dict(only[0][1], id=self.uid('x'))
                    only.append([c, v])
                    self.scn['flex'].append(v['id'])
                for n in ('churner', 'churners'):
                    one = [self.churn_act(only if r.random() < 0.8 else None) for _ in range(r.randint(4, 12))]
                    self.scn[n] = one if n == 'churner' else [one]
        self.scn['sched'] = self.sched(nt)
        return self.scn

    def setup_churn(self):
        """Extra validators that come and go; all others must be unaffected."""
        r = self.r
        self.churnable = []
        flex = []
        for c in self.scn['classes']:
            for fs in c['fields']:
                if fs.get('copy_of') or r.random() < 0.3:
                    continue
                for _ in range(r.choice([1, 1, 2])):
                    v = {'id': self.uid('x'), 'kind': 'obj', 'via': 'init'}
                    if r.random() < 0.4:
                        v['raw'] = True
                    if r.random() < 0.7:
                        vals = fs.setdefault('vals', [])
                        vals.insert(r.randint(0, len(vals)), v)
                    flex.append(v['id'])
                    self.churnable.append([[c['name'], fs['n']], v])
        if flex:
            self.scn['flex'] = flex
            self.mc = M.flatten(self.scn)

    def sched(self, nt):
        r = self.r
        if nt == 1 and not self.scn.get('churner'):
            return {'policy': 'seq', 'gran': 'hook'}
        g = wchoice(r, self.P['gran'])
        pol = r.choice(['rand', 'rand', 'pct'])
        base = {'hook': (0.1, 0.3, 0.6), 'line': (0.01, 0.05, 0.2), 'opcode': (0.003, 0.02, 0.1)}[g]
        return {'policy': pol, 'gran': g, 'p': r.choice(base), 'k': r.randint(1, 6),
                'horizon': {'hook': 60, 'line': 800, 'opcode': 5000}[g], 'seed': r.randrange(1 << 30)}


def generate(profile, seed, params=None):
    return Gen(profile, seed, params).scenario()
