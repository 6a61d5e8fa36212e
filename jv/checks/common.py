"""Shared parts of the checks."""
from .. import compare, gen, ref, sut
from ..engine import Case, Phase, Skip
from ..ast import Box, Seg, TP, Cont

FMTS = gen.FORMATS
BOXFMTS = ('jp2', 'jph')
CSFMTS = ('j2c', 'jhc')
SCALE = {'quick': 1, 'thorough': 25}
BASE_ASSUMPTIONS = [
    'the tool is used on CPython 3 with a UTF-8 locale on Linux',
    'rules and property definitions are those of doc/jpylyzerUserManual.md and of the parts of ISO/IEC 15444 it cites, as '
    'transcribed in jv/ref.py',
]


class Check:
    level = 'exploration'
    rule = ''
    assumptions = BASE_ASSUMPTIONS
    shrink_budget = 250

    def prepare(self):
        # import once, before the workers are forked
        sut.module()

    def phases(self, tier):
        raise NotImplementedError


def failed(node, path=()):
    """Paths of failed leaves of a tests tree."""
    out = []
    todo = [(node, ())]
    while todo:
        n, p = todo.pop()
        q = p + (n.tag,)
        if n.text == 'False':
            out.append(q)
        todo.extend((k, q) for k in n.kids)
    return out


def run(path, fmt, **kw):
    """Analysis that has to succeed; raises Broken with a message otherwise."""
    try:
        r = sut.analyse(path, fmt, **kw)
    except sut.Raised as e:
        raise Broken('the analysis raised an exception: %s' % e)
    if r.info is None or r.status is None or r.tests is None or r.props is None or r.warns is None or r.valid is None:
        raise Broken('the report is incomplete')
    return r


class Broken(Exception):
    pass


def guarded(fn):
    def judge(case, env):
        try:
            return fn(case, env)
        except Broken as e:
            return str(e)
    return judge


def rel(d):
    """Path of a difference without the indices of repeated elements."""
    return tuple(str(p).split('[')[0] for p in d.path)


def in_codestream(path, fmt):
    return fmt in CSFMTS or 'contiguousCodestreamBox' in path
