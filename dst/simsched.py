"""Seeded cooperative scheduler for real Python threads.

Exactly one simulated thread runs at any time: the baton is a private lock per
thread.  Every *yield point* (a user callback entered by the library, an operation
boundary, a blocked lock and - depending on the run - every line or bytecode executed
inside oblate) asks the policy which thread continues.  Decisions are recorded as
``[step, tid]`` pairs, which is the complete schedule of a run: given the same pairs, a
run is repeated exactly.
"""
import gc
import sys
import math
import types
import zlib
import random
import _thread

_alloc = _thread.allocate_lock          # the real lock, before the seams replace it

OBLATE_DIR = None                       # set by seams.load()


class Abort(BaseException):
    """Unwinds every simulated thread (deadlock, step cap)."""


class Task:
    __slots__ = ('tid', 'fn', 'lock', 'done', 'blocked', 'frames', 'error', 'ident',
                 'intr', 'intr_exc', 'lines', 'intr_fired', 'nontraced', 'open', 'stalled')

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.lock = _alloc()
        self.lock.acquire()
        self.done = False
        self.stalled = False      # in a callback that waits until nobody else can go on
        self.blocked = None
        self.frames = []
        self.open = []            # value contexts of the callbacks in progress
        self.error = None
        self.ident = None
        self.intr = None          # lines left before an injected interrupt
        self.lines = 0
        self.intr_fired = False
        self.intr_exc = KeyboardInterrupt


current = None      # the running Scheduler, if any


class Scheduler:
    def __init__(self, spec, step_cap=4_000_000):
        self.policy = spec.get('policy', 'seq')
        self.gran = spec.get('gran', 'hook')
        self.p = spec.get('p', 0.1)
        self.rng = random.Random(spec.get('seed', 0))
        self.switches = {s: t for s, t in spec.get('switches', ())}
        self.k = spec.get('k', 3)
        self.horizon = spec.get('horizon', 2000)
        self.tasks = []
        self.step = 0
        self.cap = step_cap
        self.trace = []           # recorded decisions
        self.cur = None
        self.aborted = None
        self.main_lock = _alloc()
        self.main_lock.acquire()
        self.n_switch = 0
        self.prio = None
        self.change = ()
        self.interrupts = bool(spec.get('interrupts'))
        self.sig = 0              # hash of the interleaving (sequence of (tid, label))

    # -- running -----------------------------------------------------------------

    def run(self, fns):
        global current
        self.tasks = [Task(i, fn) for i, fn in enumerate(fns)]
        if not fns:
            return
        if self.policy == 'pct':
            order = list(range(len(fns)))
            self.rng.shuffle(order)
            self.prio = {t: p for p, t in enumerate(order)}
            self.change = {self.rng.randrange(1, self.horizon) for _ in range(self.k)}
        if self.policy == 'rand':
            self._logq = math.log(1.0 - min(self.p, 0.999999))
        self._sorted = sorted(self.switches if self.policy == 'list' else self.change)
        self._at = 0
        self._gap()
        current = self
        self.instrument()
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            first = self._choose_start()
            self.cur = self.tasks[first]
            self.cur.lock.release()
            self.main_lock.acquire()
        finally:
            current = None
            self.deinstrument()

    def _choose_start(self):
        if self.policy == 'list':
            t = self.switches.get(0, 0)
            t = t if 0 <= t < len(self.tasks) else 0
        elif self.policy == 'seq' or len(self.tasks) == 1:
            t = 0
        elif self.policy == 'pct':
            t = max(range(len(self.tasks)), key=lambda i: self.prio[i])
        else:
            t = self.rng.randrange(len(self.tasks))
        self.trace.append([0, t])
        return t

    def _body(self, task):
        task.lock.acquire()
        task.ident = _thread.get_ident()
        try:
            if self.aborted is None:
                task.fn(task)
        except Abort:
            pass
        except BaseException as e:      # a harness error: programs catch everything
            task.error = e
        finally:
            task.done = True
            self._finish(task)

    def _finish(self, task):
        nxt = self._pick(exclude=task, forced=True)
        if nxt is None:
            alive = [t for t in self.tasks if not t.done]
            if alive and self.aborted is None:
                self.aborted = 'deadlock'
            if alive:
                # unwind the remaining (blocked) ones, one at a time
                nxt = alive[0]
                self.cur = nxt
                nxt.lock.release()
                return
            self.main_lock.release()
            return
        self.cur = nxt
        nxt.lock.release()

    # -- decisions ---------------------------------------------------------------

    def _runnable(self, exclude=None):
        return [t for t in self.tasks if not t.done and t is not exclude
                and (t.blocked is None or t.blocked())]

    def _pick(self, exclude=None, forced=False):
        """The task that continues, when the running one cannot (or may not)."""
        cand = self._runnable(exclude)
        if not cand:
            return None
        self.step += 1
        if self.policy == 'list':
            want = self.switches.get(self.step)
            for t in cand:
                if t.tid == want:
                    break
            else:
                t = cand[0]
        elif self.policy == 'seq':
            t = cand[0]
        elif self.policy == 'pct':
            t = max(cand, key=lambda x: self.prio[x.tid])
        else:
            t = self.rng.choice(cand)
        self.trace.append([self.step, t.tid])
        t.blocked = None
        return t

    def switch_to(self, task, nxt):
        self.n_switch += 1
        self.cur = nxt
        nxt.lock.release()
        task.lock.acquire()
        if self.aborted is not None:
            raise Abort()

    def _gap(self):
        """Where the next voluntary decision is taken."""
        pol = self.policy
        if len(self.tasks) == 1 or pol == 'seq':
            at = self.cap + 1
        elif pol == 'rand':
            u = 1.0 - self.rng.random()
            at = self.step + 1 + (int(math.log(u) / self._logq) if self.p < 1 else 0)
        else:
            while self._at < len(self._sorted) and self._sorted[self._at] <= self.step:
                self._at += 1
            at = self._sorted[self._at] if self._at < len(self._sorted) else self.cap + 1
        self.next_at = min(at, self.cap + 1)

    def point(self, label=''):
        """A yield point of the running thread."""
        self.step += 1
        if self.step >= self.next_at or self.aborted is not None:
            self._decide(label)

    def _decide(self, label):
        task = self.cur
        if self.aborted is not None:
            raise Abort()
        if self.step > self.cap:
            self.aborted = 'nontermination'
            raise Abort()
        pol = self.policy
        nxt = None
        if pol == 'list':
            want = self.switches.get(self.step)
            if want is not None and want != task.tid:
                for t in self._runnable(task):
                    if t.tid == want:
                        nxt = t
        elif pol == 'rand':
            cand = self._runnable(task)
            if cand:
                nxt = self.rng.choice(cand)
        elif pol == 'pct':
            self.prio[task.tid] = -self.step
            cand = self._runnable()
            if cand:
                t = max(cand, key=lambda x: self.prio[x.tid])
                if t is not task:
                    nxt = t
        self._gap()
        if nxt is not None:
            nxt.blocked = None
            self.trace.append([self.step, nxt.tid])
            self.sig = zlib.crc32(b'%d>%d:%s' % (task.tid, nxt.tid, label.encode()), self.sig)
            self.switch_to(task, nxt)

    def block(self, ready):
        """Blocks the running thread until ready() is true; False on deadlock."""
        task = self.cur
        while not ready():
            task.blocked = ready
            nxt = self._pick(exclude=task)
            if nxt is None:
                task.blocked = None
                return False
            self.switch_to(task, nxt)
            task.blocked = None
        return True

    # -- preemption inside the library --------------------------------------------

    def on_line(self, code, line):
        if current is not self:
            return
        task = self.cur
        task.lines += 1
        if task.intr is not None:
            task.intr -= 1
            if task.intr <= 0:
                task.intr = None
                task.intr_fired = (code.co_name, line)
                raise task.intr_exc('injected')
        if self.gran == 'line':
            self.step += 1
            if self.step >= self.next_at:
                self._decide(code.co_name)

    def on_instr(self, code, offset):
        if current is not self:
            return
        self.step += 1
        if self.step >= self.next_at:
            self._decide(code.co_name)

    def instrument(self):
        """Makes every line (or bytecode) of oblate a scheduling point.

        sys.monitoring, not sys.settrace: CPython 3.12 crashes when a trace function of
        one thread raises while another thread is being traced.
        """
        M = sys.monitoring
        ev = 0
        if self.gran == 'line' or self.interrupts:
            ev |= M.events.LINE
        if self.gran == 'opcode':
            ev |= M.events.INSTRUCTION
        if not ev:
            return
        M.use_tool_id(TOOL, 'dst')
        M.register_callback(TOOL, M.events.LINE, self.on_line)
        M.register_callback(TOOL, M.events.INSTRUCTION, self.on_instr)
        for code in library_code():
            M.set_local_events(TOOL, code, ev)

    def deinstrument(self):
        M = sys.monitoring
        if M.get_tool(TOOL) is not None:
            for code in library_code():
                M.set_local_events(TOOL, code, 0)
            M.register_callback(TOOL, M.events.LINE, None)
            M.register_callback(TOOL, M.events.INSTRUCTION, None)
            M.free_tool_id(TOOL)


TOOL = 3
_codes = None


def library_code():
    """Every code object of the library."""
    global _codes
    if _codes is not None:
        return _codes
    seen = {}

    def add(code):
        if id(code) in seen or not code.co_filename.startswith(OBLATE_DIR):
            return
        seen[id(code)] = code       # by identity: equal code in two files is equal
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    def visit(x, depth=0):
        if isinstance(x, types.FunctionType):
            add(x.__code__)
            if hasattr(x, '__wrapped__'):
                visit(x.__wrapped__, depth + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            visit(x.__func__, depth + 1)
        elif isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                visit(f, depth + 1)
        elif isinstance(x, type) and depth < 4:
            if getattr(x, '__module__', '').split('.')[0] == 'oblate':
                for y in list(vars(x).values()):
                    visit(y, depth + 1)
                if type(x) is not type:
                    visit(type(x), depth + 1)
        elif getattr(type(x), '__module__', '').split('.')[0] == 'oblate':
            for n in getattr(type(x), '__slots__', ()):
                y = getattr(x, n, None)
                if isinstance(y, types.FunctionType):
                    visit(y, depth + 1)
            visit(type(x), depth + 1)

    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] == 'oblate' and mod is not None:
            for x in list(vars(mod).values()):
                visit(x)
    for x in gc.get_objects():
        if isinstance(x, types.FunctionType):
            add(x.__code__)
    _codes = list(seen.values())
    return _codes


def point(label=''):
    s = current
    if s is not None and s.cur is not None and s.cur.ident == _thread.get_ident():
        s.point(label)


class SimLock:
    """Stands in for threading.Lock/RLock so that a lock taken inside the library is
    a scheduling point, not a way to hang the simulation."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = current
        sim = s is not None and s.cur is not None and s.cur.ident == me
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        if sim:
            s.point('lock')
        if self._owner is not None:
            if not blocking:
                return False
            if not sim:
                if timeout is not None and timeout >= 0:
                    return False
                raise RuntimeError('SimLock: would block outside of the simulation')
            if not s.block(self._free):
                if timeout is not None and timeout >= 0:
                    return False
                s.aborted = 'deadlock'
                raise Abort()
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._count = 0
        s = current
        if s is not None and s.aborted is None and sys.exc_info()[0] is None:
            point('unlock')

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner = None
        self._count = 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[1]

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True
