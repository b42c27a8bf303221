"""Minimises a failing scenario, then its schedule.

usage: shrink.py PROPERTY IN.json OUT.json SECONDS   (run under the PYTHONHASHSEED of the failure)
"""
import sys
import json
import copy
import time

LISTS = ('threads', 'ops', 'i', 'fields', 'vals', 'xvals', 'classes', 'churner', 'churners', 'steps', 'cases', 'progs', 'writes',
         'flex', 'configs', 'pre', 'over', 'unknown', 'side', 'modes')
DROP = ('b', 'h')
KEYS = ('fmt', 'none', 'lk', 'dk', 'dflt', 'ik', 'state', 'ie', 'config', 'pre', 'post', 'errcls', 'ctx', 'intr', 'intrk', 'inc',
        'exc', 'churner', 'churners', 'on_none', 'frozen', 'req', 'b', 'h', 'bases_', 'empty')


def positions(x, path=()):
    """Everything that could be left out, the largest parts first."""
    out = []
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'sched':
                continue
            p = path + (k,)
            if isinstance(v, list) and (k in LISTS or (path and path[-1] in DROP)):
                out += [(p, i) for i in range(len(v))]
            if k in KEYS or (path and path[-1] in DROP):
                out.append((path, k))
            out += positions(v, p)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out += positions(v, path + (i,))
    return out


def without(scn, pos):
    s = copy.deepcopy(scn)
    for path, key in sorted(pos, key=lambda p: (len(p[0]), str(p[1]) if isinstance(p[1], str) else '%09d' % p[1]),
                            reverse=True):
        x = s
        try:
            for p in path:
                x = x[p]
            del x[key]
        except (KeyError, IndexError, TypeError):
            return None
    return s


class Shrinker:
    def __init__(self, pid, scn, viol, budget):
        import props
        self.eng = props.engine(pid)
        self.pid = pid
        self.aspect = viol['aspect']
        self.k = viol.get('k')
        self.end = time.monotonic() + budget
        self.best = scn
        self.res = None
        self.viol = None
        self.tried = 0

    def left(self):
        return time.monotonic() < self.end

    def fails(self, scn):
        from runner import evaluate
        self.tried += 1
        try:
            viol, res = evaluate(self.eng, self.pid, scn)
        except Exception:
            return False
        same = [v for v in viol if v['aspect'] == self.aspect]
        if not same or res.get('invalid') or res.get('err'):
            return False
        self.best, self.res, self.viol = scn, res, same
        return True

    def attempt(self, scn, retries=1):
        if scn is None:
            return False
        scn['shrunk'] = 1
        if self.fails(scn):
            return True
        sc = scn.get('sched') or {}
        if sc.get('policy') in ('rand', 'pct'):
            for n in range(1, retries):
                s = copy.deepcopy(scn)
                s['sched']['seed'] = n
                if self.fails(s):
                    return True
        return False

    def run(self):
        s = copy.deepcopy(self.best)
        if not self.fails(s):
            return False
        if (s.get('sched') or {}).get('policy') in ('rand', 'pct'):
            for gran in ('hook', 'line'):
                c = copy.deepcopy(self.best)
                if gran == 'hook':
                    c['sched'] = {'policy': 'seq', 'gran': 'hook'}
                elif c['sched'].get('gran') == 'opcode':
                    c['sched']['gran'] = 'line'
                else:
                    continue
                if self.attempt(c, 3):
                    break
        retries = 3 if (self.best.get('sched') or {}).get('policy') in ('rand', 'pct') else 1
        progress = True
        while progress and self.left():
            progress = False
            depth = 0
            while self.left():
                pos = positions(self.best)
                sizes = {}
                for p in pos:
                    sizes.setdefault(len(p[0]), []).append(p)
                levels = sorted(sizes)
                if depth >= len(levels):
                    break
                level = sizes[levels[depth]]
                if self.level(level, retries):
                    progress = True
                depth += 1
        self.schedule()
        return True

    def level(self, level, retries):
        """ddmin over the positions of one depth; positions are recomputed on success."""
        any_ = False
        n = max(1, len(level) // 2)
        depth = len(level[0][0])
        while n >= 1 and self.left():
            i = 0
            while self.left():
                pos = [p for p in positions(self.best) if len(p[0]) == depth]
                if i >= len(pos):
                    break
                if self.attempt(without(self.best, pos[i:i + n]), retries):
                    any_ = True
                else:
                    i += n
            n //= 2
        return any_

    def schedule(self):
        """Replaces the random schedule by the list of its decisions; drops those not needed."""
        sc = self.best.get('sched') or {}
        if sc.get('policy') not in ('rand', 'pct', 'list') or not self.res or 'trace' not in self.res:
            return
        c = copy.deepcopy(self.best)
        c['sched'] = {'policy': 'list', 'gran': sc.get('gran', 'hook'), 'switches': self.res['trace']}
        c['shrunk'] = 1
        if not self.fails(c):
            return
        n = max(1, len(c['sched']['switches']) // 2)
        while n >= 1 and self.left():
            i = 0
            while i < len(self.best['sched']['switches']) and self.left():
                c = copy.deepcopy(self.best)
                del c['sched']['switches'][i:i + n]
                if not self.fails(c):
                    i += n
            n //= 2


def main():
    pid, src, dst, budget = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    d = json.load(open(src))
    s = Shrinker(pid, d['scn'], d['viol'][0], budget)
    ok = s.run()
    out = {'reproduced': ok, 'tried': s.tried}
    if ok:
        out.update({'scn': s.best, 'viol': s.viol[:3], 'trace': s.res.get('trace'), 'digest': s.res.get('digest')})
    json.dump(out, open(dst, 'w'))


if __name__ == '__main__':
    main()
