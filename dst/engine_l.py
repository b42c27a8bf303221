"""Engine L (C22): what the library still holds when everything is over.

Runs a scenario like engine M, then lets go of everything that the caller had - results,
instances, errors, the values and mappings it passed - and of nothing else: the schema
classes, their fields and the library's own modules stay.  Whatever the collector still
finds of the operations is held by the library.
"""
import gc

import engine_m
import seams
oblate = seams.load()
import simsched
import world as W
from oblate import contexts

OURS = (W.Raw, W.VInt, W.VStr, W.VFloat, W.VList, W.VSet, W.VTuple, W.VDict, W.StObj, W.Loaded, W.Dumped,
        W.DefaultVal, W.SpyMapping, W.Frame, W.Result)
THEIRS = (oblate.Schema, oblate.FieldError, oblate.ValidationError, oblate.FieldNotSet, oblate.FrozenError,
          contexts.SchemaContext, contexts._BaseValueContext if hasattr(contexts, '_BaseValueContext') else oblate.LoadContext,
          oblate.LoadContext, oblate.DumpContext, oblate.ErrorContext)


def alive(skip):
    gc.collect()
    out = []
    for x in gc.get_objects():
        t = type(x)
        if issubclass(t, OURS + THEIRS) and id(x) not in skip:
            out.append(x)
    return out


def run(scn):
    w, res = engine_m.setup(scn)
    if w is None:
        return res
    # defaults, literals and the like belong to the classes
    before = {id(x) for x in alive(())}
    keep = alive(())
    res = engine_m.simulate(w, scn)
    st = engine_m.stats(w, scn)
    out = {'viol': res['viol'] if res and 'viol' in res else []}
    if res and 'invalid' in res:
        return res
    out['stats'] = st
    out['trace'] = w.sched.trace
    made = len(alive(before))
    out['digest'] = 0 if res else engine_m.digest(w)
    res = None
    w.forget()
    left = alive(before)
    st['extra'] = {'objects_made': made, 'objects_left': len(left)}
    if left and not out['viol']:
        names = {}
        for x in left:
            n = type(x).__name__
            names[n] = names.get(n, 0) + 1
        out['viol'] = [{'aspect': 'kept', 'g': None, 'op': None, 'k': None,
                        'msg': 'of %d objects made by the operations, %d are still held by the library after all of them ended: %s%s'
                        % (made, len(left), ', '.join('%d %s' % (names[n], n) for n in sorted(names)), held(left[0]))}]
    del keep
    return out


def held(x):
    """Where the first of them is held, as far as it can be told."""
    path = [type(x).__name__]
    seen = {id(x)}
    for _ in range(6):
        nxt = None
        for r in gc.get_referrers(x):
            if id(r) in seen or type(r).__name__ in ('frame', 'list_iterator', 'generator'):
                continue
            if isinstance(r, list) and len(r) > 0 and r[0] is x and path == [type(x).__name__]:
                continue
            nxt = r
            break
        if nxt is None:
            break
        seen.add(id(nxt))
        if isinstance(nxt, type(gc)):
            path.append('module ' + nxt.__name__)
            break
        path.append(getattr(nxt, '__qualname__', None) if isinstance(nxt, type) else type(nxt).__name__)
        x = nxt
    return '; the first: ' + ' in '.join(map(str, path))
