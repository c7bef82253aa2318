"""Writes MANIFEST.json from the specs present: python3 mkmanifest.py"""
import json
import os
import sys

sys.dont_write_bytecode = True

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {}
NOTE = ('contracts on the real functions, discharged from the live source for all inputs by z3/cvc5; where a contract '
        'is marked bounded (see evidence: kind) it is executed natively on generated or exhaustively enumerated inputs '
        'and not counted as proved. Trusts the interpreter and library models in /verif/vc, listed in the evidence')


BOUNDED = ('contracts on the real functions, executed natively on generated and exhaustively enumerated inputs with the '
           'bounds stated in the specs: the recursion and the carried state of these functions are beyond the '
           'verifier, so nothing is counted as proved')


MIXED = {'C26': 'the functions that templates are built from (names, types, paths, lookups) are proved for all inputs; what the '
                'templates write is bounded: random documents of the supported subset, their code executed natively and '
                'compared with the document, with no proof counted for them'}


def level(p):
    sys.path[:0] = [HERE, '/repo']
    from vc import check, contract as C
    return check.level(C.load(p))


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    specs = {f[:3].upper() for f in os.listdir(os.path.join(HERE, 'specs')) if f.startswith('c')}
    checks, na = [], []
    for p in ids:
        if p in specs:
            checks.append({'property': p, 'quick_cmd': f'{PY} vc/check.py {p}', 'thorough_cmd': f'{PY} vc/check.py {p} thorough',
                           'evidence_file': f'evidence/{p}.json',
                           'technique': 'contract-based deductive verification of the real functions (symbolic '
                                        'verification-condition generation from the live Python source, z3/cvc5), '
                                        'native execution of the same contracts as replay and cross-check',
                           'level': level(p), 'level_note': MIXED[p] if p in MIXED else NOTE if level(p) == 'proof' else BOUNDED})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
