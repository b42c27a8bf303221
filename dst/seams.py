"""The seams between oblate and the outside world.

oblate has no I/O and no clock.  What it shares with its surroundings is: the threads
and tasks that call it, thread/task-local context variables, user callbacks, module and
class level state, `warnings`, and the process's hash seed.  load() imports the library
from /repo's working tree with locks replaced by simulated ones, so that every source of
nondeterminism is one that the scheduler controls.  Nothing in /repo is modified.
"""
import os
import sys
import gc

REPO = os.environ.get('DST_REPO', '/repo')
_loaded = None


def load():
    global _loaded
    if _loaded is not None:
        return _loaded
    import threading
    import _thread
    import simsched
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    # modules that make their own locks at import time are imported first
    import typing_extensions, warnings, copy, inspect, collections, re, enum, contextvars  # noqa
    import json, traceback, tempfile, subprocess, queue, logging, functools  # noqa
    threading.Lock = simsched.SimLock
    threading.RLock = simsched.SimRLock
    threading._allocate_lock = simsched.SimLock     # what Condition, Semaphore, Event, Barrier wait on
    _thread.allocate_lock = simsched.SimLock
    _thread.RLock = simsched.SimRLock
    simsched.OBLATE_DIR = os.path.join(REPO, 'oblate') + os.sep
    import oblate
    f = os.path.realpath(oblate.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('oblate was imported from %s' % f)
    gc.collect()
    gc.freeze()
    gc.disable()
    _loaded = oblate
    return oblate
