"""Re-executes the failing input of a replay file against the code in /repo: python vc/replay.py FILE"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('VC_REPO', '/repo'), HERE]

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    from vc import contract as C
    from vc.gen import DictSource, RandomSource
    con = C.load(rec['property'])[rec['contract']]
    if not rec.get('failing_input'):
        print('no failing input; failed obligation:', rec['obligation'])
        print(json.dumps(rec['verifier'], indent=1))
        sys.exit(1)
    out, g = C.run_native(con, DictSource(rec['failing_input']['draws'], RandomSource('replay')))
    print('inputs:', json.dumps(rec['failing_input']['draws'], indent=1))
    print('result:', out)
    sys.exit(0 if out in (None, 'rejected') else 1)
