"""Cross-check of the verifier's trusted part against CPython: /opt/venv/bin/python vc/conformance.py [name ...]

Each case is a small function, run twice: by CPython on concrete inputs, and by the symbolic interpreter on symbolic
inputs about which is only known that they equal the concrete ones.  The behaviour CPython shows (value or exception) has
to be among those the interpreter considers (otherwise a model or a rule would hide behaviours and proofs resting on it
would be worthless).  Where the interpreter considers other behaviours as well, the case counts as "wider": sound, but not
exact.  No check depends on this program; its results are reported in DESIGN.md."""
import decimal
from fractions import Fraction
import os
import random
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('VC_REPO', '/repo'), HERE]

from vc import core, models, xmlmodel, loops  # noqa: E402,F401
from vc.core import CUR, Ctx, Unsupported, check_formula, z3  # noqa: E402
from vc.gen import SymGen  # noqa: E402
from vc.interp import Interp  # noqa: E402
from vc.sym import zbool, force, is_sym  # noqa: E402
from specs.selftest import CASES  # noqa: E402

STRS = ['', 'a', 'b', 'abc', 'aba', 'true', '1', '0', ' a ', '\ta\nb\r', 'a:b', 'a:b:c', ':', '12', '-7', '+5', '007', ' 12 ',
        '1_000', '1.5', '.5', '1e3', '-0', 'inf', 'NaN', 'A1', 'Z', 'P', '12-34', '-', 'é', '\xa0', '٣', 'a b  c', '"q"', 'b1']
INTS = [0, 1, 2, 3, 4, 5, -1, -2, -4, -7, 12, 13, 29, 30, 59, 60, 99, 100, 840, -840, 1439, 1440, 9999, 10000, 10 ** 20]
DECS = [decimal.Decimal(x) for x in ('0', '1', '2', '-1', '1.5', '-0.25', '2.0', '1E+3', '100', '0.001', '123456789.125')]
FLTS = [0.0, 1.0, 2.0, -1.5, 0.1, 1e20, 1e-7, float('inf'), float('-inf'), float('nan')]
LISTS = [[], ['a'], ['b'], ['a', 'b'], ['b', 'a'], ['b', 'b', 'c'], ['a', 'c', 'd'], ['bb', 'b'], ['c', 'b1', 'b2']]
INTLISTS = [[], [1], [5], [1, 2, 3], [3, 2, 4, 5], [-1, 0], [4, 4]]
VALUES = {'str': STRS, 'int': INTS, 'decimal': DECS, 'float': FLTS, 'strs': LISTS, 'ints': INTLISTS}


def symbolic(I, g, kind, name, value):
    c = core.ctx()
    if kind == 'str':
        v = g.str(name)
        c.assume(zbool(models.eq(I, v, value)))
        return v
    if kind == 'int':
        v = g.int(name)
        c.assume(v.t == value)
        return v
    if kind == 'decimal':
        v = g.decimal(name)
        c.assume(zbool(models.eq(I, v, value)))
        return v
    if kind == 'float':
        v = g.float(name)
        if value != value:
            c.assume(v.nan)
        elif value in (float('inf'), float('-inf')):
            c.assume(v.inf == (1 if value > 0 else -1))
        else:
            c.assume(z3.And(z3.Not(v.nan), v.inf == 0, v.r == z3.RealVal(str(Fraction(value)))))
        return v
    made = {}
    L = g.list(name, lambda gg: (gg.str if kind == 'strs' else gg.int)('e'))
    c.assume(zbool(models.eq(I, models.length(I, L), len(value))))
    for k, x in enumerate(value):
        c.assume(zbool(models.eq(I, models.getitem(I, L, k), x)))
    return L


def agree(I, v, e):
    """A formula: the interpreter's value v is the value e."""
    v = force(v)
    if isinstance(e, (tuple, list)):
        if not isinstance(v, (tuple, list)):
            return z3.BoolVal(False)
        items = list(v)
        if any(type(x).__name__ == 'Chunk' for x in items):
            raise Unsupported('list of unknown length')
        if not isinstance(v, type(e)) or len(items) != len(e):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [agree(I, x, y) for x, y in zip(items, e)])
    if isinstance(e, dict):
        if not isinstance(v, dict) or set(v) != set(e):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [agree(I, v[k], e[k]) for k in e])
    if isinstance(e, (float, decimal.Decimal)) and e != e:
        return v.nan if is_sym(v) else z3.BoolVal(v != v)
    t = models.py_type(v)
    if t is not type(e) and not (e is None and v is None):
        return z3.BoolVal(False)
    return zbool(models.eq(I, v, e))


def run(name, f, kinds, values, seconds=20):
    """-> 'exact' | 'wider' | 'unknown' | 'unsupported' | 'WRONG'"""
    try:
        want = ('value', f(*[list(v) if isinstance(v, list) else v for v in values]))
    except Exception as e:
        want = ('raise', type(e))
    c = Ctx(deadline=time.time() + seconds)
    CUR[0] = c
    out = {'yes': 0, 'other': 0, 'unknown': 0}
    box = {}

    def thunk():
        I = box['I'] = Interp()
        g = SymGen(I, None)
        args = [symbolic(I, g, k, f'x{n}', v) for n, (k, v) in enumerate(zip(kinds, values))]
        got = I.call(f, args)
        if want[0] == 'value':
            return ('cmp', agree(I, got, want[1]))
        return ('cmp', z3.BoolVal(False))

    def on_path(kind, value):
        if kind == 'Raised':
            t = z3.BoolVal(want[0] == 'raise' and isinstance(value.exc, BaseException) and type(value.exc) is want[1])
        else:
            t = value[1]
        for key, goal in (('yes', t), ('other', z3.Not(t))):
            r, _, _ = check_formula(c.pc, goal, 4000, False)
            if r == 'sat':
                out[key] += 1
            elif r == 'unknown':
                out['unknown'] += 1
    try:
        c.explore(thunk, on_path)
    except Unsupported as e:
        return 'unsupported', str(e)
    except Exception as e:
        if type(e).__name__ == 'Budget':
            return 'unsupported', 'time'
        return 'engine', repr(e)
    finally:
        if c.journal:
            c.undo_to(0)
    if out['yes']:
        return ('wider' if out['other'] or out['unknown'] else 'exact'), ''
    if out['unknown']:
        return 'unknown', ''
    return 'WRONG', f'{want}'


def main():
    names = sys.argv[1:]
    rnd = random.Random(1)
    tot, bad, wide, unsup = {}, [], set(), {}
    for name, f, kinds in CASES:
        if names and not any(re.search(n, name) for n in names):
            continue
        if len(kinds) == 1:
            vals = [(v,) for v in VALUES[kinds[0]]]
        else:
            vals = [tuple(rnd.choice(VALUES[k]) for k in kinds) for _ in range(40)]
        for v in vals:
            r, why = run(name, f, kinds, v)
            tot[r] = tot.get(r, 0) + 1
            if r in ('WRONG', 'engine'):
                bad.append((name, v, why))
                print(r, name, v, why, flush=True)
            elif r == 'unsupported':
                unsup.setdefault((name, why), []).append(v)
            elif r == 'wider':
                wide.add(name)
    print('results', tot)
    print('not exact:', ' '.join(sorted(wide)))
    for (n, why), v in unsup.items():
        print(f'unsupported: {n} ({why}) on {len(v)} inputs')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
