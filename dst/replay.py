"""Replays a violation: replay.py FILE.  Exit 1 and a VIOLATION line if it is reproduced exactly."""
import os
import sys
import json

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    path = sys.argv[1]
    d = json.load(open(path))
    hs = str(d['hashseed'])
    if os.environ.get('PYTHONHASHSEED') != hs:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    import props
    from runner import evaluate
    pid = d['property']
    viol, res = evaluate(props.engine(pid), pid, d['scn'])
    want = d['viol'][0]
    got = [v for v in viol if v['aspect'] == want['aspect']]
    if not got:
        print('not reproduced: %s' % (json.dumps(viol[:3]) if viol else res.get('err') or res.get('invalid') or 'no violation'))
        sys.exit(0)
    exact = res.get('digest') == d.get('digest')
    for v in got[:3]:
        print('  [%s] %s' % (v['aspect'], v['msg']))
    print('execution %s to the recorded one' % ('identical' if exact else 'NOT identical'))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.exit(1)


if __name__ == '__main__':
    main()
