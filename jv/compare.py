"""Comparison of the reference model's trees with the tool's."""
from .ref import WILD, Num, Lengths
from fractions import Fraction


def leaf_ok(exp, got):
    if exp is WILD:
        return True
    got = '' if got is None else got
    if isinstance(exp, Num):
        try:
            v = Fraction(got.strip())
        except (ValueError, ZeroDivisionError):
            return False
        return abs(v - exp.v) <= exp.tol
    if isinstance(exp, Lengths):
        return exp.match(got)
    return (exp or '') == got


def group(kids):
    g = {}
    for k in kids:
        g.setdefault(k.tag, []).append(k)
    return g


class Diff:
    __slots__ = ('path', 'exp', 'got', 'what')

    def __init__(self, path, exp, got, what):
        self.path, self.exp, self.got, self.what = path, exp, got, what

    @property
    def leaf(self):
        return self.path[-1]

    def __str__(self):
        return '%s at %s: expected %s, reported %s' % (self.what, '/'.join(map(str, self.path)), self.exp, self.got)


def diff(exp, got, path=(), out=None, limit=60):
    """Differences; siblings with different tags are unordered, same tag ordered.

    Nodes flagged wild in the expectation are not compared below."""
    if out is None:
        out = []
    if len(out) >= limit or exp.wild:
        return out
    if exp.attrib is not None and exp.attrib != (got.attrib or {}):
        out.append(Diff(path, exp.attrib, got.attrib, 'attributes differ'))
    if not leaf_ok(exp.text, got.text):
        out.append(Diff(path, repr(exp.text), repr(got.text), 'value differs'))
    ge, gg = group(exp.kids), group(got.kids)
    for tag in list(ge) + [t for t in gg if t not in ge]:
        a, b = ge.get(tag, []), gg.get(tag, [])
        opt = [k for k in a if k.wild and k.text is WILD]        # may be absent
        if len(a) != len(b):
            if opt and len(a) - len(opt) <= len(b) <= len(a):
                continue
            out.append(Diff(path + (tag,), '%d entries' % len(a), '%d entries' % len(b), 'number of entries differs'))
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, path + ((tag,) if len(a) == 1 else ('%s[%d]' % (tag, i),)), out, limit)
    return out
