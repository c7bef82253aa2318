"""Decides one property: /opt/venv/bin/python vc/check.py C01

Discharges every obligation of the property's contracts from the source in /repo as it is now, cross-checks every
contract natively on generated inputs, and writes /verif/evidence/<id>.json."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]

TRUSTED = [
    'the verifier in /verif/vc: symbolic interpreter of the Python statements and expressions soapfish uses, its rule '
    'for loops over lists of unknown length, and its models of built-ins, str, re, datetime, decimal and lxml '
    '(cross-checked natively: every contract also runs under CPython with the real libraries)',
    'z3 5.3.2 and cvc5 1.4.2 (back ends), the CPython ast module (extraction of the source of the live functions)',
    'contracts speak about the functions of /repo as imported by CPython; nothing of a function under contract is '
    'dropped except logging calls and exception message texts, which are left arbitrary',
]


def contract_ids(prop):
    from vc import contract as C
    return C.load(prop)


def run_one(cid, tier, seed, tmp, hard):
    out = os.path.join(tmp, cid.replace('/', '_') + '.json')
    opt = {'seed': seed}
    if tier == 'thorough':
        opt.update(timeout_ms=30000, runs=None, native_seconds=200)
    opt = {k: v for k, v in opt.items() if v is not None}
    if tier == 'thorough':
        opt['scale'] = 10
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VC_REPO=REPO)
    t0 = time.time()
    try:
        p = subprocess.run([PY, '-m', 'vc.worker', cid, 'both', out, json.dumps(opt)], cwd=HERE, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=hard, start_new_session=True)
        log, rc = p.stdout.decode('utf-8', 'replace')[-3000:], p.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = 'time limit\n' + (e.stdout or b'').decode('utf-8', 'replace')[-2000:], 'timeout'
    res = {'contract': cid}
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    res['rc'], res['log'], res['wall'] = rc, log, round(time.time() - t0, 2)
    return res


def load_known(prop):
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    e = json.loads(line)
                    if e.get('property') == prop and e.get('kind') == 'known':
                        out.append(e)
    return out


def is_known(known, cid, label):
    for e in known:
        if e['contract'] == cid and (e.get('label') in (None, label)):
            return e
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cons = contract_ids(prop)
    if not cons:
        print(f'no contract for {prop}')
        return 2
    evdir = os.environ.get('VC_EVIDENCE', os.path.join(HERE, 'evidence'))
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(prop + '.'):
            os.unlink(os.path.join(rdir, fn))
    tmp = tempfile.mkdtemp(prefix='vc_')
    budget = 840 if tier == 'thorough' else 600
    try:
        order = sorted(cons, key=lambda c: -cons[c].seconds)
        with ThreadPoolExecutor(int(os.environ.get('VC_JOBS', '8'))) as ex:
            futs = {c: ex.submit(lambda c=c: run_one(c, tier, seed, tmp, max(20, min(400, budget - (time.time() - t0)))))
                    for c in order}
            results = [futs[c].result() for c in cons]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = load_known(prop)
    violations, findings, notes = [], [], []
    tot = {'obligations': 0, 'discharged': 0, 'runs': 0, 'checks': 0}
    solvers, functions, models = {}, set(), set()
    solver_s = 0.0
    table = []
    proofs = bounded = undecided = 0
    errors = 0
    for r in results:
        cid = r['contract']
        con = cons[cid]
        pr, na = r.get('proof'), r.get('native')
        row = {'contract': cid, 'kind': 'proof' if con.proof else 'bounded', 'wall_s': r['wall']}
        fail = None
        if pr is not None:
            tot['obligations'] += pr['obligations']
            tot['discharged'] += pr['discharged']
            for k, v in pr['solvers'].items():
                solvers[k] = solvers.get(k, 0) + v
            functions.update(pr['functions'])
            models.update(pr['notes'])
            solver_s += pr['solver_s']
            row.update(status=pr['status'], paths=pr['paths'], obligations=pr['obligations'],
                       discharged=pr['discharged'], solver_s=pr['solver_s'], queries=pr['queries'])
            if pr['status'] == 'proved':
                proofs += 1
            if pr['reason']:
                row['reason'] = pr['reason'][:300]
            for f in pr['failures']:
                if f['native']:
                    fail = (f['native']['label'], f, f['native'])
                    break
        if na is not None:
            tot['runs'] += na['runs']
            tot['checks'] += na['checks']
            row.update(native_runs=na['runs'], native_checks=na['checks'], native_rejected=na['rejected'])
            if na.get('stale'):
                row['reason'] = na['stale']
                row['status'] = 'undecided'
            if na['exhaustive']:
                row['native_exhaustive'] = True
            if fail is None and na['failure']:
                fail = (na['failure']['label'], None, na['failure'])
        if fail is None and pr is not None and pr['status'] == 'refuted':
            f = [f for f in pr['failures'] if f['verdict'] == 'sat'][0]
            fail = (f['label'], f, None)
        if not con.proof:
            bounded += 1
        elif pr is None or pr['status'] == 'undecided':
            undecided += 1
        if na is not None and na.get('stale'):
            fail = None
        if fail is None and (na is None or (na['runs'] and na['runs'] == na['rejected'])):
            row['error'] = f'worker ended with {r["rc"]}: ' + r['log'][-1500:]
            errors += 1
        if fail is not None:
            label, f, nat = fail
            k = is_known(known, cid, label)
            if k:
                findings.append((k, cid, label))
                row['status_native'] = 'known finding'
            else:
                path = os.path.join(rdir, f'{cid}.json')
                with open(path, 'w') as fh:
                    json.dump({'property': prop, 'contract': cid, 'targets': list(con.targets), 'obligation': label,
                               'failing_input': nat, 'verifier': f,
                               'replay': f'{PY} vc/replay.py {path}' if nat else None,
                               'functions': pr['functions'] if pr else None}, fh, indent=1, default=str)
                violations.append((cid, label, path, nat is not None, nat))
                row['violation'] = label
        table.append(row)
    for k, cid, label in findings:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    for row in table:
        st = row.get('status', 'bounded')
        print(f'{row["contract"]}: {st}, {row.get("discharged", 0)}/{row.get("obligations", 0)} obligations, '
              f'{row.get("native_runs", 0)} native runs, {row["wall_s"]} s'
              + (f' [{row["reason"]}]' if row.get('reason') else '') + (' ' + row['error'] if row.get('error') else ''))
    for cid, label, path, confirmed, nat in violations:
        print(f'violated: {cid}: {label}' + (f' ({str(nat.get("detail"))[:300]})' if nat else ''))
        print(f'VIOLATION property={prop} replay={path}' + ('' if confirmed else ' no-failing-input-found'))
    from vc.checkinfo import BOUNDS
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level(cons), 'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
        'coverage': {
            'obligations': tot['obligations'], 'discharged': tot['discharged'],
            'discharged_by': solvers, 'solver_s': round(solver_s, 2),
            'checker_cmd': f'{PY} vc/check.py {prop}', 'trusted_base': TRUSTED,
            'contracts': table, 'contracts_proved': proofs, 'contracts_bounded': bounded,
            'contracts_undecided': undecided,
            'functions_under_contract': sorted(x for x in functions if not x.startswith('specs.')),
            'evaluations': tot['runs'], 'native_checks': tot['checks'],
            'rule': 'native runs execute each contract under CPython with inputs drawn from corner values, literals of '
                    'the functions under contract and a seeded generator; runs whose inputs violate the precondition '
                    'are counted as rejected',
            'explanation': 'contracts_bounded lists contracts decided only by native execution of generated or '
                           'exhaustively enumerated inputs; they are not counted in obligations',
        },
        'assumptions': sorted(set(a for c in cons.values() for a in c.assumes) | models) + BOUNDS,
    }
    if ev['level'] == 'proof' and undecided and not proofs and not violations:
        ev['level'] = 'exploration'     # nothing was proved of the code as it is now
    elif ev['level'] == 'proof' and tot['obligations'] == 0 and not violations:
        print('no obligation was generated')
        errors += 1
    data = json.dumps(ev, indent=1, default=str)
    if len(data) > 60000:
        for row in table:
            row.pop('reason', None)
            row.pop('error', None)
        data = json.dumps(ev, default=str)
    with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
        f.write(data)
    print(f'{prop}: {tot["discharged"]}/{tot["obligations"]} obligations discharged, {proofs} contracts proved, '
          f'{undecided} undecided, {bounded} bounded, {tot["runs"]} native runs, {time.time() - t0:.1f} s')
    if violations:
        return 1
    return 3 if errors else 0


# Properties of which only parts are proved; their deciding step is bounded
EXPLORED = {'C26'}


def level(cons):
    return 'proof' if any(c.proof and c.prop not in EXPLORED for c in cons.values()) else 'exploration'


if __name__ == '__main__':
    sys.exit(main())
