"""Fuzz dictionary: integer and byte-string constants of the current source tree.

Constants that are not in the committed baseline (data/baseline_constants.json) come
first and several times: a change that introduces a new special value gets it tried.
The dictionary only steers generation; it never takes part in a judgement."""
import ast
import json
import os

from . import sut

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, 'data', 'baseline_constants.json')
_c = None


def constants():
    ints, byts, strs = set(), set(), set()
    d = os.path.join(sut.REPO, 'jpylyzer')
    for dp, dn, fn in sorted(os.walk(d)):
        dn.sort()
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(dp, f), encoding='utf-8') as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, OSError, UnicodeDecodeError, ValueError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and 0 <= v < 1 << 64:
                        ints.add(v)
                    elif isinstance(v, bytes) and 0 < len(v) <= 64:
                        byts.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 40 and '\n' not in v:
                        strs.add(v)
                elif isinstance(n, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(n), '<c>', 'eval'), {'__builtins__': {}}, {}) if lit(n) else None
                    except Exception:
                        v = None
                    if isinstance(v, int) and 0 <= v < 1 << 64:
                        ints.add(v)
    return ints, byts, strs


def lit(n):
    """Small arithmetic expression of literals."""
    if isinstance(n, ast.Constant):
        return isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) < 1 << 40
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Pow, ast.LShift, ast.BitOr)):
        if isinstance(n.op, (ast.Pow, ast.LShift)):
            return isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant) and lit(n.left) \
                and isinstance(n.right.value, int) and 0 <= n.right.value < 65
        return lit(n.left) and lit(n.right)
    return False


def load():
    global _c
    if _c is None:
        ints, byts, strs = constants()
        try:
            with open(BASE) as f:
                b = json.load(f)
            bi, bb, bs = set(b['ints']), {bytes.fromhex(x) for x in b['bytes']}, set(b['strs'])
        except OSError:
            bi, bb, bs = set(), set(), set()
        new = sorted(ints - bi)
        li = sorted(ints & bi | {v for v in ints if v in bi})
        if new:
            li = new * max(1, len(li) // (2 * len(new)) + 1) + li
        nb = sorted(byts - bb)
        _c = (li, sorted(byts), nb, new, sorted(strs - bs))
    return _c


def ints():
    """Integers, novel ones over-represented."""
    return load()[0]


def byte_strings():
    return load()[1]


def new_ints():
    return load()[3]


def new_strings():
    return load()[4]


def new_bytes():
    out = list(load()[2])
    out += [s.encode('utf-8') for s in load()[4] if len(s) <= 40]
    return out


def write_baseline():
    ints, byts, strs = constants()
    os.makedirs(os.path.dirname(BASE), exist_ok=True)
    with open(BASE, 'w') as f:
        json.dump({'ints': sorted(ints), 'bytes': sorted(b.hex() for b in byts), 'strs': sorted(strs)}, f, indent=0)
        f.write('\n')


if __name__ == '__main__':
    write_baseline()
