"""Runs a function in a forked copy of this (pristine) process and returns its result.

Every simulated run gets its own process, so that no run can see what another one left in
the library's module- or class-level state, and so that a crash, an endless loop or a
runaway allocation is contained and recognised.
"""
import os
import sys
import json
import time
import select
import signal
import traceback
import resource

counts = {'forks': 0}
TIMEOUT = 30.0
MEMORY = 3 << 30


def call(fn, *args, timeout=None):
    """{'r': result} | {'hang': 1} | {'crash': text}"""
    counts['forks'] += 1
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            try:
                out = {'r': fn(*args)}
            except BaseException:
                out = {'crash': traceback.format_exc()[-3000:]}
            data = json.dumps(out).encode()
            view = memoryview(data)
            while view:
                n = os.write(wfd, view)
                view = view[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    end = time.monotonic() + (timeout or TIMEOUT)
    chunks = []
    hang = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hang = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            hang = True
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hang:
        return {'hang': 1}
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'crash': 'the process of the run ended with status %d' % status}
