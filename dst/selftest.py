"""Proves the simulator deterministic: the same seeds, executed in fresh interpreters in
another order and on another number of workers, must give the same executions.

selftest.py [runs per property]     exit 0 if no difference was found
"""
import os
import sys
import json
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def child(pid, seed, idx):
    import props
    import runner
    eng = props.engine(pid)
    out = {}
    for i in idx:
        scn = eng.generate(runner.scenario_seed(seed, i))
        res = eng.execute(scn)
        st = res.get('stats') or {}
        out[i] = [res.get('digest'), res.get('trace'), st.get('steps'), st.get('sig'), st.get('faults'), st.get('ops'),
                  len(res.get('viol', ())), res.get('invalid'), res.get('err')]
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--child':
        real = os.dup(1)
        os.dup2(2, 1)
        r = child(sys.argv[2], int(sys.argv[3]), json.loads(sys.argv[4]))
        with os.fdopen(real, 'w') as f:
            json.dump(r, f)
        return
    import props
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 6
    idx = list(range(n))
    plans = [('11', [idx]), ('11', [idx[::-1][0::2], idx[::-1][1::2]])]
    bad = 0
    total = 0
    for pid in sorted(props.RUNS):
        jobs = []
        for k, (hs, parts) in enumerate(plans):
            for part in parts:
                env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE='1')
                jobs.append((k, subprocess.Popen([sys.executable, __file__, '--child', pid, str(seed), json.dumps(part)],
                                                 env=env, stdout=subprocess.PIPE)))
        got = {}
        for k, p in jobs:
            got.setdefault(k, {}).update(json.loads(p.communicate()[0]))
        for i in map(str, idx):
            total += 1
            if got[0][i] != got[1][i]:
                bad += 1
                print('%s run %s differs: %s' % (pid, i, [(a, b) for a, b in zip(got[0][i], got[1][i]) if a != b][:2]))
    print('determinism: %d runs executed twice, %d differed' % (total, bad))
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
