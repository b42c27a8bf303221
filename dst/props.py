"""Which engine decides a property, on what scenarios, and which disagreements break it."""

ALWAYS = {'hang', 'crash', 'malformed', 'define'}


def frozen_op(v):
    return v['aspect'] == 'frozen' or v.get('frozen') or v.get('exp') == 'frozen' or v.get('got') == 'frozen'


def c01(v):
    return v['k'] == 'upd' and v['aspect'] in ('state', 'swallowed')


def c02(v):
    a, k = v['aspect'], v['k']
    if a in ('state-other', 'value'):
        return True
    if a == 'outcome':
        return k == 'get' or (k == 'set' and {v['exp'], v['got']} == {'ok', 'other'})
    return a == 'state' and k != 'copy'


def c03(v):
    a = v['aspect']
    if a == 'report':
        return True
    if a == 'outcome' and v['k'] != 'get':
        e, g = v['exp'], v['got']
        return e == 'verr' or (e == 'ok' and g in ('verr', 'soft', 'other'))
    return False


def c04(v):
    return v['aspect'] == 'attr' or lost(v)


def lost(v):
    """A LookupError and the like of the library's own making."""
    return v['aspect'] == 'outcome' and v['k'] != 'get' and v['got'] == 'other' and v['exp'] in ('ok', 'verr')


def c05(v):
    return v['aspect'] == 'ctx' or lost(v)


def c07(v):
    a = v['aspect']
    return (a in ('frozen', 'lin', 'failed') or (a in ('state', 'state-other') and v.get('frozen'))
            or (a == 'outcome' and (v['exp'] == 'frozen' or v['got'] == 'frozen'))
            or (a == 'state' and v.get('exp') == 'frozen')
            or (a == 'selfop' and 'frozen' in v['msg']))


def c08(v):
    a, k = v['aspect'], v['k']
    return (a in ('copy', 'ctxstate', 'state-other') or (k == 'copy' and a in ('outcome', 'state', 'life', 'vctx', 'ctx'))
            or (a in ('life', 'vctx') and v.get('copied')))


def c09(v):
    a, k = v['aspect'], v['k']
    return a in ('dumpval', 'calls-dump', 'readdump') or (k == 'dump' and a in ('outcome', 'report', 'state', 'state-other'))


def c10(v):
    return v['aspect'] in ('calls', 'calls-load', 'order', 'read', 'registry')


def c13(v):
    return v['aspect'] in ('vctx', 'ctxstate')


def c14(v):
    return (v['aspect'] in ('life', 'datamod', 'order')
            or (v['aspect'] == 'outcome' and v['k'] == 'new' and v['got'] == 'other'))


def c17(v):
    a = v['aspect']
    return (a in ('default', 'readdump') or (a == 'outcome' and v['k'] == 'get' and 'notset' in (v['exp'], v['got']))
            or (a == 'outcome' and v['k'] == 'new' and v['exp'] == 'ok')
            or (a == 'state' and v['k'] == 'new') or (a == 'value' and v.get('dflt')))


def c18(v):
    a = v['aspect']
    return (a in ('swallowed', 'stopiter') or (a == 'outcome' and (v['exp'] == 'hard' or v['got'] in ('soft', 'hard')))
            or lost(v))


def c22(v):
    return v['aspect'] == 'kept'


def c23(v):
    # an operation of another thread that waits shows as a hang; one that gives up waiting as another outcome
    return v['aspect'] == 'outcome'


def c24(v):
    if v['aspect'] in ('repr', 'lin', 'failed'):
        return True
    return v['k'] == 'repr' and v['aspect'] in ('outcome', 'state', 'state-other', 'ctxstate', 'ctx', 'swallowed')


MODEL = {'C24': c24, 'C22': c22, 'C23': c23, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
         'C13': c13, 'C14': c14, 'C17': c17, 'C18': c18}

# simulated runs of a quick check; a thorough one runs THOROUGH times as many
RUNS = {'C01': 9000, 'C02': 7500, 'C03': 7500, 'C04': 4500, 'C05': 4800, 'C07': 7500, 'C08': 8250, 'C09': 7500,
        'C10': 5400, 'C13': 5400, 'C14': 5400, 'C17': 9000, 'C18': 7500,
        'C22': 4500, 'C24': 7500, 'C23': 6000, 'C06': 1800, 'C15': 9000, 'C21': 9000, 'C16': 9000, 'C11': 10500, 'C12': 13500, 'C19': 4500, 'C20': 5400}
THOROUGH = 25


def relevant(pid, v):
    if v['aspect'] in ALWAYS:
        return True
    f = MODEL.get(pid)
    return f(v) if f else v['aspect'] != 'stopiter'


class ModelEngine:
    """Engine M: one execution, compared with the reference model."""

    def __init__(self, pid):
        self.pid = pid

    def generate(self, seed):
        import gen
        if self.pid == 'C07' and seed % 5 == 2:
            import engine_r
            return engine_r.generate(seed, True)
        if self.pid == 'C24' and seed % 5 < 2:
            import engine_r
            return engine_r.generate(seed, show=True)
        prof = self.pid if seed % 4 or self.pid in ('C23', 'C24') else 'MIX'
        return gen.generate(prof, seed)

    def execute(self, scn):
        import engine_m
        from runner import guarded
        if self.pid == 'C22':
            import engine_l
            return guarded(engine_l.run, scn)
        if scn.get('shared'):
            import engine_r
            return guarded(engine_r.run, scn)
        return guarded(engine_m.run, scn)


def engine(pid):
    if pid in MODEL:
        return ModelEngine(pid)
    import importlib
    mod = importlib.import_module({'C06': 'engine_d', 'C15': 'engine_e', 'C19': 'engine_v', 'C20': 'engine_v',
                                   'C21': 'engine_e', 'C11': 'engine_c', 'C12': 'engine_g', 'C16': 'engine_r'}[pid])
    return mod.Engine(pid)
