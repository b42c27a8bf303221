"""Decides one property by seeded search over simulated runs: check.py PROPERTY"""
import os
import sys
import json
import time
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props            # noqa: E402
import runner           # noqa: E402
import evidence         # noqa: E402


def spawn(args, hs, **kw):
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen([sys.executable] + args, env=env, cwd=HERE, **kw)


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            if line.startswith('finding:') and ('property=%s ' % pid) in line:
                out.append(line.split('property=%s ' % pid, 1)[1].strip())
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    n = props.RUNS[pid] * (props.THOROUGH if tier == 'thorough' else 1)
    if len(sys.argv) > 2:
        n = int(sys.argv[2])
    deadline = 7200.0 if tier == 'thorough' else 420.0
    t0 = time.monotonic()
    print('property %s: VERIF_SEED=%d tier=%s, %d simulated runs on %d workers' % (pid, seed, tier, n, runner.NWORK))
    sys.stdout.flush()
    ps = []
    for w in range(runner.NWORK):
        hs = runner.hashseed(seed, w)
        ps.append((w, hs, spawn([os.path.join(HERE, 'runner.py'), pid, str(seed), str(w), str(n), str(deadline)], hs,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    outs, errs = [], []
    import threading
    res = {}

    def collect(w, p):
        res[w] = p.communicate()
    ts = [threading.Thread(target=collect, args=(w, p)) for w, _, p in ps]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for w, hs, p in ps:
        o, e = res[w]
        try:
            d = json.loads(o)
            d['hashseed'] = hs
            outs.append(d)
        except ValueError:
            errs.append('worker %d ended with %s: %s' % (w, p.returncode, e.decode(errors='replace')[-1500:]))
    fails = sorted((d for d in outs if d['fail']), key=lambda d: d['fail']['run'])
    harness = errs + ['run %d: %s' % (d['err']['run'], d['err']['text']) for d in outs if d['err']]
    wall = time.monotonic() - t0
    evidence.write(pid, seed, tier, outs, wall, len(fails))
    for f in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, f))
    runs = sum(d['agg']['c']['runs'] for d in outs)
    print('%d runs in %.1f s' % (runs, wall))
    if fails:
        report(pid, seed, tier, fails[0])
        sys.exit(1)
    if harness:
        print('check error: ' + harness[0])
        sys.exit(2)
    if any(d['truncated'] for d in outs):
        print('note: the wall-clock limit was reached before all runs were done')
        if runs < n // 10:
            sys.exit(2)
    print('property %s held on everything explored' % pid)


def report(pid, seed, tier, d):
    f = d['fail']
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    base = os.path.join(VERIF, 'replays', '%s-%d-%d' % (pid, seed, f['run']))
    rec = {'property': pid, 'verif_seed': seed, 'run': f['run'], 'scenario_seed': runner.scenario_seed(seed, f['run']),
           'hashseed': d['hashseed'], 'scn': f['scn'], 'viol': f['viol'], 'trace': f['trace'], 'digest': f['digest'],
           'minimised': False}
    path = base + '.json'
    full = base + '.full.json'
    with open(full, 'w') as h:
        json.dump(rec, h)
    print('run %d (scenario seed %d) violates the property:' % (f['run'], rec['scenario_seed']))
    for v in f['viol'][:3]:
        print('  [%s] %s' % (v['aspect'], v['msg'][:600]))
    print('minimising ...')
    sys.stdout.flush()
    tmp = base + '.min.tmp'
    budget = 60 if tier == 'quick' else 300
    p = spawn([os.path.join(HERE, 'shrink.py'), pid, full, tmp, str(budget)], d['hashseed'],
              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        p.wait(timeout=budget + 120)
    except subprocess.TimeoutExpired:
        p.kill()
    final = full
    try:
        m = json.load(open(tmp))
        os.unlink(tmp)
        if m['reproduced']:
            r2 = dict(rec, scn=m['scn'], viol=m['viol'], trace=m['trace'], digest=m['digest'], minimised=True,
                      tried=m['tried'])
            with open(path, 'w') as h:
                json.dump(r2, h, indent=1)
            q = spawn([os.path.join(HERE, 'replay.py'), path], d['hashseed'], stdout=subprocess.PIPE,
                      stderr=subprocess.STDOUT)
            o = q.communicate(timeout=200)[0].decode(errors='replace')
            if q.returncode == 1:
                final = path
                print('minimised (%d candidates) and reproduced in a fresh process:' % m['tried'])
                print(o.strip().rsplit('\n', 1)[0][:3000])
    except Exception as e:
        print('minimisation failed: %r' % (e,))
    print('VIOLATION property=%s replay=%s' % (pid, final))


if __name__ == '__main__':
    main()
