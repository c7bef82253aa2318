"""Runs one contract: python -m vc.worker CONTRACT MODE OUT  (MODE: proof|native|both|replay)"""
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]


def main():
    cid, mode, out = sys.argv[1:4]
    opt = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import logging
    logging.disable(logging.CRITICAL)
    from vc import contract as C
    reg = C.load(cid.split('.')[0])
    con = reg[cid]
    res = {'contract': cid}
    seed = int(opt.get('seed', 1))
    if mode in ('proof', 'both') and con.proof:
        res['proof'] = C.prove(con, opt.get('seconds', con.seconds), opt.get('timeout_ms', 8000))
        write(out, res)
    if mode in ('native', 'both'):
        n = opt.get('runs', con.runs) * opt.get('scale', 1)
        pr = res.get('proof')
        # an obligation not discharged gets a longer search for a failing input
        if con.proof and pr is not None and pr['status'] != 'proved':
            n *= opt.get('search_factor', 5)
        res['native'] = C.native(con, n, max(opt.get('native_seconds', 60), 0 if con.proof else con.seconds), seed, deeper=opt.get('scale', 1) > 1)
    write(out, res)


def write(out, res):
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f, default=str)
    os.replace(tmp, out)


if __name__ == '__main__':
    main()
