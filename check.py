#!/usr/bin/env python3
"""check.py ID: decide one property of properties.jsonl on /repo's working tree (see DESIGN.md).
   check.py --replay FILE: execute the behaviour of a reported violation again."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import MachineryError, Run
import checks


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        v = json.load(open(sys.argv[2]))
        os.environ['VERIF_SEED'] = str(v['seed'])
        import vlib
        vlib.SEED = v['seed']
        r = Run(v['property'])
        b = v['behaviour']
        if v['component'].startswith('record:'):
            # record it again: the driver's choices depend on the seed only
            h = r.record(v['component'][7:], v['index'] + 1).splitlines()[v['index']]
            print(json.dumps(json.loads(h)[len(b) - 1]))
            return 0
        n = v.get('index') or 0
        lines = b if isinstance(b, list) and v['index'] is None else [b]
        pad = ['{}'] * n + [json.dumps(b)] if v['index'] is not None else [json.dumps(x) for x in lines]
        inp = r._name('replay.ndjson')
        open(inp, 'w').write('\n'.join(pad) + '\n')
        print(r._vh(r.vh, v['component'], inp, v['tags'], 1, n if v['index'] is not None else None))
        return 0
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    r = Run(pid)
    try:
        getattr(checks, pid)(r)
    except MachineryError as e:
        if not r.violations:
            raise
        print('ERROR (after a violation):', e)     # what the library did before stays a violation
    return r.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except MachineryError as e:
        print('ERROR:', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
