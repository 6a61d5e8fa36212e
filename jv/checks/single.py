"""Checks on the single-file analysis that use construction, metamorphic and differential oracles."""
import json
import os
import re
import shutil
import sys
import tempfile
import time
from fractions import Fraction

from .. import compare, gen, harvest, ref, sut, templates as tp, xmlgen
from ..ast import Box, Cont, F, Mark, R, Seg, TP, walk
from .. import engine
from ..engine import Case, Phase, Skip, in_child
from .common import (BASE_ASSUMPTIONS, BOXFMTS, CSFMTS, FMTS, SCALE, Broken, Check, failed, guarded, rel, run)
from . import model
from .model import Small, gen_conf, gen_mutated, gen_pert, list_phase, mk, sweep_phase

OPTS = [dict(verbose=v, pm=p, nullxml=n, mix=m) for v in (False, True) for p in (False, True) for n in (False, True) for m in (0, 1, 2)]


def light(name):
    """Not a count whose large values take seconds to analyse."""
    return name not in tp.COUNTS


def any_file(ch, i, fmts=FMTS, cfg=Small, only=None):
    """Conforming, perturbed or damaged file; (data, fmt, label)."""
    fmt = fmts[i % len(fmts)]
    f = gen.gen_file(ch, fmt, cfg)
    k = ch.n(5)
    if k == 0:
        return f.ser(last=True), fmt, 'conforming'
    if k < 4:
        what = model.perturbed(ch, f, ['field', 'struct', 'length'], only=only, times=3)
        return f.ser(last=True), fmt, 'perturbed ' + what
    d = gen.mutate_bytes(ch, f.ser(last=True))
    if model.slow(d) and (only is not None or not ch.p(10)):
        d = d[:max(0, len(d) - 1)]
        for tok in (b'cdef', b'ulst', b'\xff\x51'):
            d = d.replace(tok, b'free')
    return d, fmt, 'mutated'


# ---------------------------------------------------------------- C01

ODDNAMES = [b'f.jp2', b'\xff', b'a\x80\xffb.jp2', b'caf\xe9.jp2', b'\xed\xa0\x80', b'\xc3\xa9.jp2', b'\x01\x1f\x7f', b'new\nline', b'\xef\xbf\xbe', b'\xef\xbb\xbf.jp2',
            b'<&>"\'.jp2', b'%s%d{}', b' ', b'*', b'[', b'-r', b'\xf0\x9f\x98\x80', b'x' * 250]


def judge_c01_reader(case):
    """As a user who may read the file but not write it."""
    d = engine.scratch()
    try:
        os.chmod(d, 0o755)
        path = os.path.join(d, 'f.jp2')
        with open(path, 'wb') as f:
            f.write(case.files[0][1])
        os.chmod(path, 0o444)
        root = os.geteuid() == 0
        if root:
            try:
                os.seteuid(65534)
            except OSError:
                raise Skip()
        try:
            return judge_c01_path(case, path)
        finally:
            if root:
                os.seteuid(0)
    finally:
        engine.wipe(d)


def judge_c01(case, env):
    if case.par.get('reader'):
        return judge_c01_reader(case)
    nm = case.par.get('name')
    path = env.put(case.files[0][1]) if nm is None else env.put(case.files[0][1], os.fsdecode(ODDNAMES[nm]))
    try:
        return judge_c01_path(case, path)
    finally:
        if nm:
            os.remove(path)


def judge_c01_path(case, path):
    for fmt in case.par['fmts']:
        for o in case.par['opts']:
            g = run(path, fmt, **o)
            if not g.ok:
                return '[%s %s] the analysis failed: %s' % (fmt, o, g.status.val('failureMessage'))
            if g.verdict not in ('True', 'False'):
                return '[%s %s] verdict is %r' % (fmt, o, g.verdict)
            if [k.tag for k in g.root.kids if k.tag != 'propertiesExtension'] != ['fileInfo', 'statusInfo', 'isValid', 'tests', 'properties', 'warnings']:
                return '[%s %s] parts of the report: %s' % (fmt, o, [k.tag for k in g.root.kids])
            for n in g.root.iter():
                if n.text is not None and not isinstance(n.text, str):
                    return '[%s %s] value of %s is not text: %r' % (fmt, o, n.tag, n.text)
    return None


def c01_par(ch, fmt):
    fs = [fmt]
    if ch.p(30):
        fs.append(ch.pick(FMTS))
    os_ = [ch.pick(OPTS)]
    if ch.p(30):
        os_.append(ch.pick(OPTS))
    return {'fmts': sorted(set(fs)), 'opts': os_}


def special_files():
    """Degenerate inputs."""
    out = [b'', b'\0', b'\0' * 7, b'\0' * 8, b'\0' * 16, b'\0' * 1000, b'\xff', b'\xff\x4f', b'\xff\x4f\xff\x51', b'\xff' * 100, b'\x89PNG\r\n\x1a\n' + bytes(60),
           b'\0\0\0\1', b'\0\0\0\1jp2c', b'\0\0\0\1jp2c\0\0\0\0\0\0\0', b'\0\0\0\1jp2c' + b'\0' * 8, b'\0\0\0\1jp2c' + b'\xff' * 8, b'\0\0\0\0jp2c',
           b'\0\0\0\0jp2h', b'\0\0\0\x08jp2h', b'\0\0\0\x07jp2h', b'\0\0\0\x02jp2h' * 3, b'\xff\xff\xff\xffjp2h', b'<?xml version="1.0"?><a/>', b'a' * 11]
    types = gen.KNOWN_TYPES + (b'test', b'\xff\x52\xff\x52', b'\xff\x4f\0\0')
    for t in types:
        for body in (b'', b'\0', b'\0' * 3, b'\xff' * 2, b'\0' * 30, b'\xff' * 30, bytes(range(64)), b'\0\0\0\1' * 6, b'\xff' * 200, b'\0' * 200):
            for inner in (b'', b'jp2h', b'res ', b'uinf'):
                b = (len(body) + 8).to_bytes(4, 'big') + t + body
                if inner:
                    b = (len(b) + 8).to_bytes(4, 'big') + inner + b
                out.append(b)
    # nesting
    for n in (2, 10, 49, 50, 51, 52, 200, 2000):
        for t in (b'jp2h', b'res ', b'uinf'):
            b = b'\0\0\0\x08abcd'
            for _ in range(n):
                b = (len(b) + 8).to_bytes(4, 'big') + t + b
            out.append(b)
    # deeply nested XML
    for n in (10, 500, 3000, 20000):
        x = b'<a>' * n + b'</a>' * n
        out.append(tp.wrap('jp2', tp.lean_codestream('jp2'), mid=[Box(b'xml ', 'xml', [R('x', x)])]).ser(last=True))
    # XML that is valid but awkward
    for x in (b'<!DOCTYPE a [<!ENTITY e "x">]><a>&e;</a>', b'<!DOCTYPE a SYSTEM "file:///etc/hostname"><a/>',
              b'<!DOCTYPE a [<!ENTITY e SYSTEM "file:///etc/hostname">]><a>&e;</a>', b'<?xml version="1.1"?><a/>',
              b'<?xml version="1.0" encoding="unknown-8"?><a/>', b'<?xml version="1.0" encoding="utf-32"?><a/>', b'<?xml version="1.0" encoding="utf-7"?><a/>',
              b'<?xml version="1.0" encoding="idna"?><a/>', b'<?xml version="1.0" encoding="hex"?><a/>', b'<?xml version="1.0" encoding="shift_jis"?><a/>',
              b'<?xml version="1.0" encoding=""?><a/>', '<?xml version="1.0" encoding="\u00e9"?><a/>'.encode('utf-8'), b'<a xmlns:b="">x</a>',
              '<a>\u200b\ufeff</a>'.encode('utf-8'), b'<a>&#xFFFE;</a>', b'<a>&#x10FFFF;</a>', b'<a b="&#x85;&#xAD;"/>', b'<a>\xed\xa0\x80</a>'):
        for box in (Box(b'xml ', 'xml', [R('x', x)]), Box(b'uuid', 'uuid', [R('i', gen.XMP_UUID), R('x', x)]), Box(b'xml ', 'xml', [R('x', x + b'\0')])):
            out.append(tp.wrap('jp2', tp.lean_codestream('jp2'), mid=[box]).ser(last=True))
    # many tiles / parts / segments declared
    return out


def long_cut_files():
    """Files of more than 10 kB that end inside a header, with a chain of headers that leads back to the cut.

    At distance d before the cut lies a header whose length field points exactly at the cut, so that any
    reader that steps backwards from an unreadable length comes back to it for ever.
    """
    out = []
    siz = tp.lean_codestream('j2c').ser()
    sot = siz.index(b'\xff\x90')
    head = siz[:sot]
    for d in list(range(9988, 10012)) + [1, 2, 3, 4, 5, 8, 10, 14, 20]:
        bulk = 10100
        # marker segment in the main header and in a tile-part header
        for pre in (head, head + b'\xff\x90\0\x0a\0\0\0\0\x60\0\0\1'):
            b = bytearray(pre + b'\xff\x64' + (bulk + 2).to_bytes(2, 'big') + b'\0' * bulk)
            at = len(b) - d
            if d >= 4:
                b[at:at + 4] = b'\xff\x64' + (d - 2).to_bytes(2, 'big')
            for tail in (b'\xff\x64', b'\xff\x64\0', b'\xff', b'\xff\x52\0', b'\xff\x30\0'):
                out.append(('j2c', bytes(b) + tail))
        # tile-parts
        part = b'\xff\x90\0\x0a\0\0' + (bulk + 14).to_bytes(4, 'big') + b'\0\1\xff\x93' + b'\0' * bulk
        b = bytearray(head + part)
        at = len(b) - d
        if d >= 14:
            b[at:at + 14] = b'\xff\x90\0\x0a\0\0' + d.to_bytes(4, 'big') + b'\0\1\xff\x93'
        for n in (2, 3, 5, 6, 7, 9, 10, 11):
            out.append(('j2c', bytes(b) + b'\xff\x90\0\x0a\0\0\0\0\0\x0e\0\1'[:n]))
        # boxes, at the top level and in a superbox
        for sup in (False, True):
            pre = b'\0\0\0\x0cjP  \r\n\x87\n\0\0\0\x14ftypjp2 \0\0\0\0jp2 '
            b = bytearray((bulk + 8).to_bytes(4, 'big') + b'abcd' + b'\0' * bulk)
            at = len(b) - d
            if d >= 8:
                b[at:at + 8] = d.to_bytes(4, 'big') + b'abcd'
            for tail in (b'\0', b'\0\0\0', b'\0\0\0\x08', b'\0\0\0\1abcd', b'\0\0\0\1abcd\0\0\0\0\0', b'\0\0\0\x05abcd'):
                x = bytes(b) + tail
                out.append(('jp2', pre + ((len(x) + 8).to_bytes(4, 'big') + b'jp2h' + x if sup else x)))
    return out


class C01(Check):
    id = 'C01'
    rule = 'distinct (bytes, formats, options); all inputs other than conforming files count as non-trivial'
    assumptions = BASE_ASSUMPTIONS + ['a single analysis that needs more than 40 s of CPU time on a file below 400 kB is taken for an endless loop']

    def phases(self, tier):
        k = SCALE[tier]
        q = tier == 'quick'
        j = guarded(judge_c01)
        sp = special_files()

        def wrapg(g0):
            def g(ch, i):
                c = g0(ch, i)
                if c is None:
                    return None
                return Case(c.files, c01_par(ch, c.par['fmt']), c.nontrivial, c.label)
            return g

        def gsp(ch, i):
            return Case([('f', sp[i % len(sp)])], {'fmts': list(FMTS) if i < len(sp) and not model.slow(sp[i]) else [ch.pick(FMTS)], 'opts': [OPTS[(i * 5) % 24]]}, True, 'special')

        def gmut(ch, i):
            fmt = FMTS[i % 4]
            if ch.p(50):
                root = ch.pick([tp.boxed('jp2'), tp.boxed('jph'), tp.wrap('jp2', tp.rich_codestream('jp2')), tp.wrap('jph', tp.rich_codestream('jph', 2))]) \
                    if fmt in BOXFMTS else tp.bare(fmt, tp.rich_codestream(fmt, ch.pick([1, 3])))
                data = root.ser(last=True)
            else:
                data = gen.gen_file(ch, fmt, Small).ser(last=True)
            for _ in range(1 + ch.n(3)):
                data = gen.mutate_bytes(ch, data)
            if ch.p(10):
                # dictionary tokens
                nb = harvest.new_bytes() + harvest.byte_strings()
                t = ch.pick(nb) if nb else b'x'
                p = ch.n(len(data) + 1)
                data = data[:p] + t + data[p + (len(t) if ch.p(50) else 0):]
            if model.slow(data) and not ch.p(5):
                return None
            return Case([('f', data)], c01_par(ch, fmt), True, 'mutated')

        def gcut(ch, i):
            fmt = FMTS[i % 4]
            data = gen.gen_file(ch, fmt, Small).ser(last=True) if ch.p(60) else (
                tp.boxed(fmt) if fmt in BOXFMTS else tp.bare(fmt, tp.rich_codestream(fmt))).ser(last=True)
            n = ch.n(len(data) + 1)
            return Case([('f', data[:n])], c01_par(ch, fmt), True, 'truncated')

        def gallcut(ch, i):
            d, fmt = allcuts[i]
            return Case([('f', d)], {'fmts': [fmt], 'opts': [OPTS[i % 24]]}, True, 'truncated')
        allcuts = []
        for fmt in FMTS:
            r = (tp.boxed(fmt) if fmt in BOXFMTS else tp.bare(fmt, tp.rich_codestream(fmt))).ser(last=True)
            allcuts += [(r[:n], fmt) for n in range(len(r))]
            if fmt in BOXFMTS:
                # cut inside the last-but-n boxes with their lengths adjusted is done by the box-length phase
                r = tp.wrap(fmt, tp.rich_codestream(fmt)).ser(last=True)
                allcuts += [(r[:n], fmt) for n in range(150, len(r), 1 if not q else 2)]
        sw = sweep_phase('fields', [tp.boxed('jp2'), tp.boxed('jph'), tp.bare('j2c', tp.rich_codestream('j2c')), tp.bare('jhc', tp.rich_codestream('jhc'))],
                         lambda n: True, None, per_name=1, stride=2 if q else 1)
        cont = []
        for fmt in BOXFMTS:
            cont += model.special_boxes(fmt) + model.icc_cases(fmt) + model.box_cuts(fmt)
        for fmt in CSFMTS:
            cont += model.special_segments(fmt) + model.tile_cases(fmt) + model.seg_cuts(fmt) + model.siz_cases(fmt)
        lc = list_phase('contents', cont[::2] if q else cont, None)
        lng = long_cut_files()

        def glong(ch, i):
            fmt, d = lng[i]
            return Case([('f', d)], {'fmts': [fmt], 'opts': [OPTS[(i * 7) % 24]]}, True, 'long')
        nmd = [b'', b'\0', b'\xff\x4f', tp.lean_codestream('j2c').ser(), tp.wrap('jp2', tp.lean_codestream('jp2')).ser(last=True),
               tp.boxed('jp2').ser(last=True), tp.boxed('jph').ser(last=True)[:-30], tp.boxed('jph').ser(last=True)]

        def gname(ch, i):
            return Case([('f', nmd[i // len(ODDNAMES)])], {'name': i % len(ODDNAMES), 'fmts': list(FMTS), 'opts': [OPTS[(i * 7) % 24]]}, True, 'name')

        def gread(ch, i):
            return Case([('f', nmd[i % len(nmd)])], {'reader': 1, 'fmts': list(FMTS), 'opts': [OPTS[(i * 5) % 24]]}, True, 'reader')
        return [Phase('reader', 4 * len(nmd), gread, j), Phase('names', len(nmd) * len(ODDNAMES), gname, j), Phase('long', len(lng), glong, j), Phase('special', len(sp) * (1 if q else 6), gsp, j), Phase('mutated', 7000 * k, gmut, j), Phase('truncated', 2000 * k, gcut, j),
                Phase('all-cuts', len(allcuts), gallcut, j),
                Phase('perturbed', 3000 * k, wrapg(gen_pert(FMTS, ['field', 'struct', 'length'], times=4)), j),
                Phase('fields', sw.count, wrapg(sw.gen), j), Phase('contents', lc.count, wrapg(lc.gen), j)]


# ---------------------------------------------------------------- C02

def prune(n):
    """Tree without outcomes that are True and without empty elements."""
    if not n.kids:
        if n.text == 'True' or not (n.text or '').strip():
            return None
        return (n.tag, n.text)
    kids = [x for x in map(prune, n.kids) if x is not None]
    return (n.tag, tuple(kids)) if kids else None


def judge_c02(case, env):
    data = case.files[0][1]
    path = env.put(data)
    fmt = case.par['fmt']
    v = run(path, fmt, verbose=True)
    s = run(path, fmt, verbose=False)
    if not v.ok or not s.ok:
        raise Broken('the analysis failed')
    for nm, g in (('verbose', v), ('normal', s)):
        bad = failed(g.tests)
        want = 'False' if bad else 'True'
        if g.verdict != want:
            return '[%s] %s report: verdict %s, failed tests %s' % (fmt, nm, g.verdict, ['/'.join(p) for p in bad[:4]])
        for n in g.tests.iter():
            if not n.kids and n.tag != 'tests' and n.text not in ('True', 'False') and (n.text or '').strip():
                return '[%s] outcome of %s is %r' % (fmt, n.tag, n.text)
    if any(not n.kids and n.text == 'True' for n in s.tests.iter()):
        return '[%s] the normal report lists a test that did not fail' % fmt
    a, b = prune(v.tests), prune(s.tests)
    if a != b:
        return '[%s] failed tests of the verbose report %s differ from the normal report %s' % (
            fmt, ['/'.join(p) for p in failed(v.tests)[:6]], ['/'.join(p) for p in failed(s.tests)[:6]])
    e = ref.analyse(data, fmt)
    if e.valid is not None and v.verdict != str(e.valid):
        return '[%s] verdict %s but the documented tests say %s' % (fmt, v.verdict, e.valid)
    for d in compare.diff(e.tests, v.tests):
        if d.what.startswith('number'):
            return '[%s] verbose report does not list the tests that have to be carried out: %s' % (fmt, d)
    return None


class C02(Check):
    id = 'C02'
    rule = 'distinct files; files with at least one perturbation or chosen field value count as non-trivial'

    def phases(self, tier):
        k = SCALE[tier]
        q = tier == 'quick'
        j = guarded(judge_c02)

        def ga(ch, i):
            d, fmt, label = any_file(ch, i)
            return mk(d, fmt, label, label != 'conforming')
        cont = []
        for fmt in BOXFMTS:
            cont += model.special_boxes(fmt) + model.box_cuts(fmt)
        for fmt in CSFMTS:
            cont += model.special_segments(fmt) + model.tile_cases(fmt) + model.seg_cuts(fmt)
        lc = list_phase('contents', cont, j)
        sw = sweep_phase('fields', [tp.boxed('jp2'), tp.boxed('jph'), tp.bare('j2c', tp.rich_codestream('j2c')), tp.bare('jhc', tp.rich_codestream('jhc'))],
                         lambda n: not n.startswith('icc.') or n in ('icc.class', 'icc.size', 'icc.tag'), j, per_name=2, stride=8 if q else 1)
        sq = model.box_sequences('quick')[::3 if q else 1]

        def gs(ch, i):
            level, s_, fmt = sq[i]
            return mk(model.build_sequence(level, s_, fmt), fmt, '%s %s' % (level, ''.join(s_)))
        return [Phase('random', 4000 * k, ga, j), model.count_phase('all', j, lambda kind, n, bad: bad), lc, sw, Phase('sequences', len(sq), gs, j)]


# ---------------------------------------------------------------- C04

def judge_c04(case, env):
    data = case.files[0][1]
    fmt = case.par['fmt']
    g = run(env.put(data), fmt)
    if not g.ok or g.verdict != 'True':
        # not the property at stake here: a conforming file is rejected
        raise Skip
    for p in case.par['cuts']:
        g = run(env.put(data[:p]), fmt, verbose=bool(p & 1))
        if g.verdict != 'False':
            return '[%s] %d of %d bytes left, reported %s' % (fmt, p, len(data), g.verdict)
    return None


def codestream_spans(f):
    """(start, end) of each codestream in the serialised file."""
    if f.fmt in CSFMTS:
        return [(0, len(f.ser(last=True)))]
    pos, out = 0, []
    for i, k in enumerate(f.kids):
        s = k.ser(last=i == len(f.kids) - 1)
        if isinstance(k, Box) and k.typ == b'jp2c':
            body = Cont.ser(k)
            out.append((pos + len(s) - len(body), pos + len(s)))
        pos += len(s)
    return out


class C04(Check):
    id = 'C04'
    rule = 'distinct valid files; each is cut at up to 60 positions (all positions for template files), all before the end of its first or inside a later codestream'

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c04)
        allc = []
        for fmt in FMTS:
            roots = [tp.boxed(fmt), tp.wrap(fmt, tp.rich_codestream(fmt))] if fmt in BOXFMTS else [
                tp.bare(fmt, tp.rich_codestream(fmt)), tp.bare(fmt, tp.lean_codestream(fmt, ntiles=(3, 1), parts=2))]
            for r in roots:
                for variant in range(3):
                    if variant == 1:
                        tps = [x for x in r.cs.kids if isinstance(x, TP)]
                        tps[-1].psot = 0
                    if variant == 2:
                        for b in gen.containers(r):
                            if isinstance(b, Box):
                                b.lmode = 'x' if b.name != 'jp2c' or r.kids[-1] is not b else '0'
                    end = codestream_spans(r)[0][1]
                    data = r.ser(last=True)
                    for lo in range(0, end, 40):
                        allc.append((data, fmt, list(range(lo, min(end, lo + 40)))))

        def gall(ch, i):
            d, fmt, cuts = allc[i]
            return mk(d, fmt, 'all-cuts', cuts=cuts)

        class Cfg(gen.Cfg):
            big_csiz = 2
            max_csiz = 257

        def g(ch, i):
            fmt = FMTS[i % 4]
            f = gen.gen_file(ch, fmt, Cfg)
            data = f.ser(last=True)
            spans = codestream_spans(f)
            cuts = set()
            first = spans[0]
            end = first[1]
            for d in range(1, 7):
                cuts.add(end - d)
            for _ in range(40):
                cuts.add(ch.n(end))
            # near the tile-part boundaries
            pos = first[0]
            for x in f.cs.kids:
                s = len(x.ser())
                if isinstance(x, TP) and ch.p(40):
                    cuts.update((pos, pos + 2, pos + 12, pos + 13, pos + 14, pos + s, pos + s - 1))
                pos += s
            for a, b in spans[1:]:
                cuts.update(range(b - 3, b))
                cuts.update((a, a + 1, a + 2))
                cuts.update(a + ch.n(b - a) for _ in range(4))
            ok = lambda p: 0 <= p < end or any(a <= p < b for a, b in spans[1:])
            return mk(data, fmt, 'random', cuts=sorted(p for p in cuts if ok(p)))

        def gbig(ch, i):
            """Large packet data that looks like markers and boxes."""
            fmt = FMTS[i % 4]
            n = ch.int(10, 6000)
            pat = ch.pick([b'\xff\x8f', b'\xd9\xff\x00', b'\xff\x00\xd9', b'jp2c', b'\xff\x51\x00', b'\x00'])
            data = (pat * (n // len(pat) + 1))[:n]
            data = data.rstrip(b'\xff')
            cs = tp.lean_codestream(fmt, 1 + ch.n(3), ntiles=ch.pick([(1, 1), (2, 1), (2, 2)]), parts=1 + ch.n(2), data=data)
            if ch.p(50):
                [x for x in cs.kids if isinstance(x, TP)][-1].psot = 0
            f = tp.wrap(fmt, cs) if fmt in BOXFMTS else tp.bare(fmt, cs)
            d = f.ser(last=True)
            end = codestream_spans(f)[0][1]
            cuts = sorted({end - 1, end - 2, end - 3, end - 4} | {ch.n(end) for _ in range(20)})
            return mk(d, fmt, 'large', cuts=cuts)

        def glook(ch, i):
            """Image data and comments with markers, boxes and whole codestreams in them, cut right behind them."""
            fmt = FMTS[i % 4]
            inner = tp.bare('j2c', tp.lean_codestream('j2c')).ser(last=True)
            bits = [b'\xff\xd9', b'\xff\xd9\xff\xd9', b'\xff\x90', b'\xff\x93', b'\xff\x4f', inner, inner[2:], inner[-18:], b'\0\0\0\x08jp2c', b'\0\0\0\0jp2c']
            data = b''
            marks = []
            for _ in range(1 + ch.n(5)):
                data += bytes(ch.n(6)) + ch.pick(bits)
                marks.append(len(data))
            data += bytes(1 + ch.n(9))
            cs = tp.lean_codestream(fmt, 1 + ch.n(3), ntiles=ch.pick([(1, 1), (2, 1), (2, 2)]), parts=1 + ch.n(2), data=data)
            tps = [x for x in cs.kids if isinstance(x, TP)]
            t = ch.pick(tps)
            if ch.p(40):
                t.kids[0:0] = [Seg(b'\xff\x64', 'com', [F('r', 2, 0), R('t', data)])]
            f = tp.wrap(fmt, cs) if fmt in BOXFMTS else tp.bare(fmt, cs)
            if fmt in BOXFMTS and ch.p(50):
                f.kids[-1].lmode = ch.pick(['x', '0'])
            d = f.ser(last=True)
            start, end = codestream_spans(f)[0]
            cuts = {end - 1, end - 2, end - 3, end - 4}
            pos = d.find(data, start)
            while pos >= 0:
                cuts.update(pos + m for m in marks)
                pos = d.find(data, pos + 1)
            cuts.update(ch.n(end) for _ in range(6))
            return mk(d, fmt, 'look-alike', cuts=sorted(p for p in cuts if p < end))
        return [Phase('all-cuts', len(allc), gall, j), Phase('random', 1300 * k, g, j), Phase('large', 500 * k, gbig, j), Phase('look-alike', 600 * k, glook, j)]


# ---------------------------------------------------------------- C14

def xdump(x):
    return [x.tag, dict(x.attrib), x.text, [xdump(k) for k in x.kids], x.tail]


def same_xml(exp, got, path='', top=True):
    """Expected [tag, attrib, text, kids, tail] against a reported node."""
    tag, attrib, text, kids, tail = exp
    here = path + '/' + tag
    if got.tag != tag:
        return '%s: reported as %s' % (here, got.tag)
    if (got.attrib or {}) != attrib:
        return '%s: attributes %r, reported %r' % (here, attrib, got.attrib)
    if (got.text or '') != ref.clean(text or ''):
        return '%s: text %r, reported %r' % (here, text, got.text)
    if not top and (got.tail or '') != (tail or ''):
        return '%s: text after it %r, reported %r' % (here, tail, got.tail)
    if [k.tag for k in got.kids] != [k[0] for k in kids]:
        return '%s: children %s, reported %s' % (here, [k[0] for k in kids], [k.tag for k in got.kids])
    for e, g in zip(kids, got.kids):
        m = same_xml(e, g, here, False)
        if m:
            return m
    return None


def judge_c14(case, env):
    data = case.files[0][1]
    path = env.put(data)
    fmt = case.par['fmt']
    verdicts = []
    for nullxml in (False, True):
        g = run(path, fmt, verbose=True, nullxml=nullxml)
        if not g.ok:
            raise Broken('the analysis failed')
        verdicts.append(g.verdict)
        for kind in ('xmlBox', 'uuidBox'):
            for where in ('top', 'hdr'):
                want = [x for x in case.par['boxes'] if x['kind'] == kind and x['where'] == where]
                holder = g.props if where == 'top' else g.props.find('jp2HeaderBox')
                got = holder.all(kind) if holder is not None else []
                if len(got) != len(want):
                    return '%d %s entries reported, %d in the file' % (len(got), kind, len(want))
                tholder = g.tests if where == 'top' else g.tests.find('jp2HeaderBox')
                outcomes = [t for t in (tholder.all(kind) if tholder is not None else [])]
                wanted_tests = [x for x in want if x['form'] != 'uuid']
                if kind == 'uuidBox':
                    # every UUID box has a length test, XMP boxes also a well-formedness test
                    wanted_tests = want
                if len(outcomes) != len(wanted_tests):
                    return '%d %s entries in the tests, expected %d' % (len(outcomes), kind, len(wanted_tests))
                for x, b, t in zip(want, got, outcomes):
                    if x['form'] == 'uuid' and (b.val('uuid') or '').lower() != x['uuid']:
                        return 'UUID %s reported as %s' % (x['uuid'], b.val('uuid'))
                    kids = [k for k in b.kids if k.tag != 'uuid' or kind == 'xmlBox']
                    if x['form'] == 'uuid':
                        if kids:
                            return 'extra entries for a UUID box: %s' % [k.tag for k in kids]
                        continue
                    ok = t.val('containsWellformedXML')
                    if ok != ('True' if x['form'] == 'ok' else 'False'):
                        return 'containsWellformedXML is %s for %s XML' % (ok, x['form'])
                    if x['form'] == 'ok' or (x['form'] == 'null' and nullxml):
                        if len(kids) != 1:
                            return 'XML not extracted (%d entries, form %s, nullxml %s)' % (len(kids), x['form'], nullxml)
                        m = same_xml(x['tree'], kids[0])
                        if m:
                            return '%s %d: %s' % (kind, want.index(x), m)
                    elif kids:
                        return 'XML of form %s extracted with nullxml %s' % (x['form'], nullxml)
        urls = [u.find('urlBox') for u in g.props.all('uuidInfoBox')]
        if [ref.clean(x) for x in case.par['urls']] != [u.val('loc') if u is not None else None for u in urls]:
            return 'URLs %r, reported %r' % (case.par['urls'], [u.val('loc') if u is not None else None for u in urls])
        lists = [[k.text for u in g.props.all('uuidInfoBox') for l in u.all('uuidListBox') for k in l.all('uuid')]]
        if [x for u in case.par['ulst'] for x in u] != [(t or '').lower() for t in lists[0]]:
            return 'UUID lists %r, reported %r' % (case.par['ulst'], lists)
        cs = g.props.find('contiguousCodestreamBox')
        coms = [c.val('comment') for c in cs.all('com')] if cs is not None else None
        if coms != [ref.clean(x) for x in case.par['comments']]:
            return 'comments %r, reported %r' % (case.par['comments'], coms)
    if verdicts[0] != verdicts[1]:
        return 'the null-terminated XML option changes the verdict from %s to %s' % tuple(verdicts)
    want = 'False' if any(x['form'] in ('null', 'bad') for x in case.par['boxes']) else 'True'
    if verdicts[0] != want:
        return 'verdict %s, expected %s; failed: %s' % (verdicts[0], want, failed(g.tests)[:3])
    return None


UTEXT = ['a', 'Kakadu-v7.2', 'caf\u00e9', ' lead and trail ', 'two\nlines', 'tab\there', '\u20ac uro', 'x' * 300, '<&>"\'', '0', '7', '\u00a0nbsp', '\u0160\u017d']


def rich_xml(ch):
    """XML generator with unusual but legal content."""
    if ch.p(60):
        return xmlgen.gen_xml(ch)
    if ch.p(50):
        x = xmlgen.gen_tree(ch)
        # arbitrary characters
        pool = ['\u00e9', '\u4e2d', '\U0001f600', '\ud7ff', '\ufffd', '\u0085', '\u2028', 'A', '\u0301', '\ue000', '\u200d', '&', '<', '\r', '\u00ad', '\ufdd0', '\U0010fffd']
        x.text = ''.join(ch.pick(pool) for _ in range(ch.n(8)))
        x.attrib['w'] = ''.join(ch.pick(pool) for _ in range(ch.n(5)))
        x.kids.append(xmlgen.X('order', {}, ch.pick(['0', '1', '2']), []))
        enc = lambda s: ''.join(c if c.isalnum() and ord(c) < 128 else '&#%d;' % ord(c) for c in s)
        body = '<%s w="%s">%s<order>%s</order></%s>' % ('a', enc(x.attrib['w']), enc(x.text), x.kids[-1].text, 'a')
        x.tag, x.attrib, x.kids = 'a', {'w': x.attrib['w']}, x.kids[-1:]
        return body.encode('utf-8'), x
    # wide, long or deep
    k = ch.n(3)
    if k == 0:
        n = ch.int(1, 60) if not ch.p(8) else ch.int(60, 2200)
        x = xmlgen.X('r', {'a%d' % i: str(i) for i in range(ch.int(0, 90) if ch.p(20) else 0)}, '', [xmlgen.X('i%d' % i, {'n': str(i)}, 'v%d' % i, []) for i in range(n)])
    elif k == 1:
        x = xmlgen.X('r', {}, 'y' * ch.int(1, 70000), [])
    else:
        n = ch.int(1, 120)
        x = xmlgen.X('leaf', {}, 'z', [])
        for i in range(n):
            x = xmlgen.X('d%d' % (i % 7), {}, '', [x])
    return xmlgen.to_text(ch, x, {}).encode('utf-8'), x


class C14(Check):
    id = 'C14'
    rule = 'distinct files that contain at least one XML, UUID, URL or comment text'
    assumptions = BASE_ASSUMPTIONS + ['Unicode category-C characters other than tab, newline and carriage return may be dropped from reported text']

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c14)

        def g(ch, i):
            fmt = BOXFMTS[i % 2]
            comments = []
            cs = tp.lean_codestream(fmt)
            segs = []
            for _ in range(ch.n(4)):
                if ch.p(20):
                    t = ch.blob(1 + ch.n(9)) * (ch.n(7000) + 1 if ch.p(2) else 1)
                    segs.append(Seg(b'\xff\x64', 'com', [F('r', 2, 0), R('t', t)]))
                    comments.append(t.hex())
                else:
                    t = ch.pick(UTEXT) * (ch.n(180) + 1 if ch.p(2) else 1) if ch.p(70) else bytes(gen.LATIN[b % len(gen.LATIN)] for b in ch.blob(1 + ch.n(20))).decode('iso-8859-15')
                    segs.append(Seg(b'\xff\x64', 'com', [F('r', 2, 1), R('t', t.encode('iso-8859-15', 'replace'))]))
                    comments.append(t.encode('iso-8859-15', 'replace').decode('iso-8859-15'))
            cs.kids[3:3] = segs
            boxes, pre, mid, post, hdr = [], [], [], [], []
            slots = [pre, mid, post]
            meta = {0: [], 1: [], 2: [], 3: []}
            for _ in range(1 + ch.n(4)):
                w = ch.n(4) if ch.p(20) else ch.n(3)
                k_ = ch.n(5)
                if k_ == 4:
                    u = ch.blob(16)
                    if u == gen.XMP_UUID:
                        u = bytes(16)
                    if ch.p(15):
                        u = gen.XMP_UUID[:15] + b'\0'
                    box = Box(b'uuid', 'uuid', [R('i', u), R('d', ch.pick([b'<a/>', ch.blob(20), b'\0\0']))])
                    h = u.hex()
                    m = {'kind': 'uuidBox', 'form': 'uuid', 'uuid': '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))}
                else:
                    x, tree = rich_xml(ch)
                    form = 'ok'
                    if ch.p(20):
                        form = 'null'
                        if x[:2] in (b'\xff\xfe', b'\xfe\xff'):
                            form = 'bad16'
                        x = x + b'\0' * ch.pick([1, 1, 1, 1, 2, 3, 9])
                    elif ch.p(10):
                        form = 'bad'
                        x = ch.pick([b'<a>', b'', b'no xml', x + b'<', x + b'\0x', b'\0' + x])
                        if x[:2] in (b'\xff\xfe', b'\xfe\xff'):
                            form = 'bad16'
                    if form == 'bad16':
                        continue
                    m = {'form': form, 'tree': xdump(tree) if form != 'bad' else None}
                    if k_ < 2:
                        box = Box(b'xml ', 'xml', [R('x', x)])
                        m['kind'] = 'xmlBox'
                    else:
                        box = Box(b'uuid', 'uuid', [R('i', gen.XMP_UUID), R('x', x)])
                        m['kind'] = 'uuidBox'
                        m['uuid'] = ref.XMP
                m['where'] = 'hdr' if w == 3 else 'top'
                (slots[w] if w < 3 else hdr).append(box)
                meta[w].append(m)
            urls, ulst = [], []
            for _ in range(ch.n(3)):
                w = ch.n(3)
                loc = ch.pick(['', 'http://www.example.org/', 'ftp://x/\u00e9?a=b&c=<d>', 'u' * 300, 'http://x/\u4e2d\U0001f600', ' sp ace ']) * (ch.n(220) + 1 if ch.p(3) else 1)
                ids = [ch.blob(16) for _ in range(ch.n(3) if not ch.p(2) else ch.pick([50, 129, 257, 1100]))]
                b = Box(b'uinf', 'uinf', [Box(b'ulst', 'ulst', [F('n', 2, len(ids))] + [R('i', x) for x in ids]),
                                          Box(b'url ', 'url', [F('v', 1, 0), F('f', 3, 0), R('l', loc.encode('utf-8') + b'\0')])])
                slots[w].append(b)
                meta.setdefault(('u', w), []).append((loc, ['-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])) for h in (x.hex() for x in ids)]))
            for w in range(3):
                boxes += meta[w]
                for loc, ids in meta.get(('u', w), []):
                    urls.append(loc)
                    ulst.append(ids)
            boxes += meta[3]
            f = tp.wrap(fmt, cs, [tp.colr_enum()] + hdr, pre, mid, post)
            return mk(f.ser(last=True), fmt, 'metadata', boxes=boxes, urls=urls, ulst=ulst, comments=comments)
        return [Phase('metadata', 24000 * k, g, j)]


# ---------------------------------------------------------------- C15

RATIO = ('compressionRatio',)


def strip_unknown(flatroot):
    return flatroot


def view(r, drop_ratio=True, drop_unknown=False):
    """Comparable view of a report (without file information)."""
    skip = lambda n: (drop_ratio and n.tag == 'compressionRatio') or (drop_unknown and n.tag == 'unknownBox')
    w = r.warns.flat(skip)
    if drop_unknown:
        # a container of warnings that has become empty is of no consequence
        w = prune_warnings(r.warns)
    return {'status': r.status.flat(), 'verdict': r.valid.flat(), 'tests': r.tests.flat(skip), 'properties': r.props.flat(skip),
            'warnings': w}


def prune_warnings(n, path=()):
    out = []
    for k in n.kids:
        if k.tag == 'unknownBox':
            continue
        if k.tag == 'warning':
            out.append((path, k.text))
        out += prune_warnings(k, path + (k.tag,))
    return out


def first_diff(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            for i in range(max(len(x), len(y))):
                p = x[i] if i < len(x) else None
                q = y[i] if i < len(y) else None
                if p != q:
                    return '%s: %r / %r' % (k, p, q)
    return None


def judge_c15(case, env):
    fmt = case.par['fmt']
    base, ins = case.files[0][1], case.files[1][1]
    v = case.par.get('verbose', True)
    a = run(env.put(base), fmt, verbose=v)
    b = run(env.put(ins), fmt, verbose=v)
    if not a.ok or not b.ok:
        raise Broken('the analysis failed')
    d = first_diff(view(a, drop_unknown=True), view(b, drop_unknown=True))
    if d:
        return '[%s] inserting %s changes the report: %s' % (fmt, case.par['types'], d)
    n = len(case.par['types'])
    unk = lambda r: [x.val('boxType') for x in r.props.iter() if x.tag == 'unknownBox' and x.find('boxType') is not None]
    ua, ub = unk(a), unk(b)
    if len(ub) != len(ua) + n:
        return '[%s] %d unknown boxes inserted, %d entries more' % (fmt, n, len(ub) - len(ua))
    want = sorted(ua + [ref.btext(bytes.fromhex(t)) for t in case.par['types']])
    if sorted(x or '' for x in ub) != want:
        return '[%s] reported types %r, in the file %r' % (fmt, sorted(ub), want)
    wa, wb = [w for w in a.warnings()], [w for w in b.warnings()]
    if len(wb) != len(wa) + n:
        return '[%s] %d unknown boxes inserted, %d warnings more' % (fmt, n, len(wb) - len(wa))
    rest = list(wb)
    for w in wa:
        if w not in rest:
            return '[%s] warning %r has disappeared' % (fmt, w)
        rest.remove(w)
    names = sorted((ref.btext(bytes.fromhex(t)) for t in case.par['types']), key=len, reverse=True)
    for nm in names:
        hit = [w for w in rest if nm in w]
        if not hit:
            return '[%s] no warning names box type %r: %r' % (fmt, nm, rest)
        rest.remove(hit[0])
    ea, eb = a.err.count('User warning'), b.err.count('User warning')
    if eb != ea + n:
        return '[%s] %d unknown boxes inserted, %d warnings more on standard error' % (fmt, n, eb - ea)
    for nm in names:
        if nm not in b.err:
            return '[%s] box type %r is not named on standard error' % (fmt, nm)
    return None


class C15(Check):
    id = 'C15'
    rule = 'distinct pairs of files that differ by the insertion of one or more unknown boxes'

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c15)

        def unknown(ch):
            t = gen.gen_unknown_type(ch)
            n = ch.pick([0, 1, 2, 4, 7, 8, 9, 30, 300])
            d = ch.blob(n)
            if ch.p(25):
                d = ch.pick([b'\xff\x4f\xff\x51', b'\0\0\0\x08jp2c', b'\0\0\0\x0cjP  \r\n\x87\n', b'\xff\xd9', b'\0\0\0\0', tp.colr_enum().ser(),
                             b'\0\0\0\1jp2h' + b'\xff' * 8, tp.lean_codestream('jp2').ser()])
            b = Box(t, 'unknown', [R('x', d)])
            if ch.p(15):
                b.lmode = 'x'
            return b

        def g(ch, i):
            fmt = BOXFMTS[i % 2]
            f = gen.gen_file(ch, fmt, Small)
            what = ''
            if ch.p(50):
                what = model.perturbed(ch, f, ['field'], times=2)
            for b in gen.containers(f):
                if isinstance(b, Box) and b.lmode == '0':
                    b.lmode = 'l'
            base = f.ser(last=True)
            places = [(f, 2)] + [(c, 1) for c in f.kids if isinstance(c, Box) and c.typ in (b'jp2h', b'uinf')]
            for c in f.kids:
                if isinstance(c, Box) and c.typ == b'jp2h':
                    places += [(x, 1) for x in c.kids if isinstance(x, Box) and x.typ == b'res ']
            types = []
            for _ in range(1 + ch.n(3)):
                cont, lo = ch.pick(places)
                lo = min(lo, len(cont.kids))
                pos = lo + ch.n(len(cont.kids) + 1 - lo)
                if 0 < pos < len(cont.kids) and getattr(cont.kids[pos - 1], 'typ', b'') == b'colr':
                    # not between colour specification boxes, which have to be contiguous
                    while pos < len(cont.kids) and any(getattr(x, 'typ', b'') == b'colr' for x in cont.kids[pos:]):
                        pos += 1
                b = unknown(ch)
                cont.kids.insert(pos, b)
                types.append(b.typ.hex())
            if ch.p(10) and isinstance(f.kids[-1], Box):
                f.kids[-1].lmode = '0'
            return Case([('a', base), ('b', f.ser(last=True))], {'fmt': fmt, 'types': types, 'verbose': bool(ch.n(2))}, True, 'insert ' + what)

        # every position of the template files with every unusual type
        posns = []
        for fmt in BOXFMTS:
            f = tp.boxed(fmt)
            for ci, c in enumerate(gen.containers(f)):
                if c is f or (isinstance(c, Box) and c.typ in (b'jp2h', b'res ', b'uinf')):
                    lo = 2 if c is f else 1
                    for pos in range(lo, len(c.kids) + 1):
                        if pos < len(c.kids) and c.kids[pos].typ == b'colr' and c.kids[pos - 1].typ == b'colr':
                            continue
                        for t in (b'test', b'JP2C', b'\0\0\0\0', b'\xff\x52\xff\x52', b'\xff\xff\xff\xff', b'jp2\0', b'uuiD', b'resx', b'\x20\x20\x20\x20', b'xml\0',
                                  b'bpcC', b'iptr', b'jpch', b'jplh', b'rreq', b'mdat'):
                            for body in (b'', b'\0', b'\xff\x4f\xff\x51\0\x29', bytes(40)):
                                posns.append((fmt, ci, pos, t, body))

        def gp(ch, i):
            fmt, ci, pos, t, body = posns[i]
            f = tp.boxed(fmt)
            base = f.ser(last=True)
            gen.containers(f)[ci].kids.insert(pos, Box(t, 'unknown', [R('x', body)]))
            return Case([('a', base), ('b', f.ser(last=True))], {'fmt': fmt, 'types': [t.hex()]}, True, 'position')
        return [Phase('random', 14000 * k, g, j), Phase('positions', len(posns), gp, j)]


# ---------------------------------------------------------------- C16

def judge_c16(case, env):
    fmt = case.par['fmt']
    o = case.par['opt']
    a = run(env.put(case.files[0][1]), fmt, **o)
    va = view(a)
    for nm, d in case.files[1:]:
        b = run(env.put(d), fmt, **o)
        x = first_diff(va, view(b))
        if x:
            return '[%s] %s: %s' % (fmt, nm, x)
        if len(a.err.splitlines()) != len(b.err.splitlines()):
            return '[%s] %s: messages on standard error differ: %r / %r' % (fmt, nm, a.err[:200], b.err[:200])
    return None


def judge_c16_huge(case, env):
    """A box of more than 4 GB (holes in a sparse file), with an extended length and until the end of the file."""
    fmt, n = case.par['fmt'], case.par['n']
    base = tp.boxed(fmt).ser(last=False)
    d = tempfile.mkdtemp(prefix='jv-huge-')
    engine.limit_memory(1)
    try:
        if shutil.disk_usage(d).free < 1 << 30 or mem_available() < 14 << 30:
            raise Skip()
        path = os.path.join(d, 'f.jp2')
        out = []
        for head in ((1).to_bytes(4, 'big') + b'Xyz0' + n.to_bytes(8, 'big'), bytes(4) + b'Xyz0'):
            with open(path, 'wb') as f:
                f.write(base + head)
                f.truncate(len(base) + n)
            g = run(path, fmt, verbose=True)
            if not g.ok:
                if 'memory' in (g.status.val('failureMessage') or ''):
                    raise Skip()
                raise Broken('the analysis failed: %s' % g.status.val('failureMessage'))
            out.append(view(g))
        x = first_diff(out[0], out[1])
        return '[%s] box of %d bytes, extended length / until the end: %s' % (fmt, n, x) if x else None
    finally:
        engine.limit_memory()
        engine.wipe(d)


def mem_available():
    try:
        with open('/proc/meminfo') as f:
            for line in f:
                if line.startswith('MemAvailable:'):
                    return int(line.split()[1]) * 1024
    except (OSError, ValueError):
        pass
    return 0


def reencode(data, mode, top=True, ctr=None):
    """Encode the lengths of all boxes as mode(number, last) says; None if data is not a sequence of boxes with 4-byte lengths."""
    ctr = ctr if ctr is not None else [0]
    out, pos = [], 0
    while pos < len(data):
        n = int.from_bytes(data[pos:pos + 4], 'big')
        if n < 8 or pos + n > len(data):
            return None
        t, c = data[pos + 4:pos + 8], data[pos + 8:pos + n]
        pos += n
        ctr[0] += 1
        num = ctr[0]
        if t in (b'jp2h', b'res ', b'uinf'):
            c = reencode(c, mode, False, ctr)
            if c is None:
                return None
        m = mode(num, pos == len(data))
        out.append((1).to_bytes(4, 'big') + t + (len(c) + 16).to_bytes(8, 'big') + c if m == 'x' else
                   (0 if m == '0' else len(c) + 8).to_bytes(4, 'big') + t + c)
    return b''.join(out)


class C16(Check):
    id = 'C16'
    rule = 'distinct groups of files that differ only in how box lengths are encoded (at least one box differs)'

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c16)

        def boxes(f):
            return [b for b in gen.containers(f) if isinstance(b, Box)]

        def variants(ch, f, n):
            out = []
            bs = boxes(f)
            for v in range(n):
                mode = ch.n(4)
                for b in bs:
                    b.lmode = {0: 'x', 1: '0'}.get(mode) or ch.pick(['l', 'x', '0'])
                if mode == 2:
                    for b in bs:
                        b.lmode = 'l'
                    ch.pick(bs).lmode = ch.pick(['x', '0'])
                out.append(('variant%d' % v, f.ser(last=True)))
            return out

        def g(ch, i):
            fmt = BOXFMTS[i % 2]
            f = gen.gen_file(ch, fmt, Small, lmodes=False)
            what = ''
            if ch.p(60):
                what = model.perturbed(ch, f, ['field', 'struct'], onlyc=lambda c: isinstance(c, gen.File) or getattr(c, 'typ', b'') in (b'jp2h', b'res ', b'uinf'), times=2)
            base = f.ser(last=True)
            vs = [x for x in variants(ch, f, 3) if x[1] != base]
            if not vs:
                return None
            return Case([('base', base)] + vs, {'fmt': fmt, 'opt': dict(verbose=True, pm=bool(ch.n(2)), nullxml=bool(ch.n(2)))}, True, 'lengths ' + what)
        singles = []
        for fmt in BOXFMTS:
            f = tp.boxed(fmt)
            n = len(boxes(f))
            for bi in range(n):
                for mode in ('x', '0'):
                    for tail in range(0, 4):
                        singles.append((fmt, bi, mode, tail))

        def gs(ch, i):
            fmt, bi, mode, tail = singles[i]
            f = tp.boxed(fmt)
            if tail == 1:
                f.kids = f.kids[:-1]
            elif tail == 2:
                f.kids = [x for x in f.kids if x.name != 'uinf' and x.name != 'unknown']
            elif tail == 3:
                f.kids = f.kids[:2] + [x for x in f.kids if x.name in ('jp2h', 'xml')] + [x for x in f.kids if x.name == 'jp2c']
            base = f.ser(last=True)
            bs = boxes(f)
            if bi >= len(bs):
                return None
            bs[bi].lmode = mode
            d = f.ser(last=True)
            if d == base:
                return None
            return Case([('base', base), ('box %s %s' % (bs[bi].name, mode), d)], {'fmt': fmt, 'opt': dict(verbose=True)}, True, 'single')

        def gh(ch, i):
            return Case([], {'fmt': BOXFMTS[i % 2], 'n': (1 << 32) + [4096, 9][i // 2]}, True, 'huge')
        q = tier == 'quick'
        cont = []
        for fmt in BOXFMTS:
            cont += model.special_boxes(fmt) + model.icc_cases(fmt)
        cont = [(c[0], c[1]) for c in cont if not model.heavy(c[0])][::6 if q else 1]
        cont += [(model.build_sequence(*x), x[2]) for x in model.box_sequences('quick')[::8 if q else 1]]
        for fmt in BOXFMTS:
            # each kind of box with each short length
            for t in sorted({b.typ for b in gen.containers(tp.boxed(fmt)) if isinstance(b, Box)} | {b'jp2i', b'free', b'ulst', b'url ', b'resd', b'bpcc'}):
                for n in range(0, 20, 1):
                    b = Box(t, t.decode().strip(), [R('x', bytes(n))])
                    f = tp.wrap(fmt, tp.lean_codestream(fmt))
                    f.kids[2].kids.append(b)
                    cont.append((f.ser(last=True), fmt))
                    f.kids[2].kids.pop()
                    f.kids.append(b)
                    cont.append((f.ser(last=True), fmt))

        def gc(ch, i):
            d, fmt = cont[i]
            vs = []
            for v, mode in enumerate((lambda n, last: 'x', lambda n, last: '0' if last else 'l', lambda n, last: 'xl'[(n + i) % 2])):
                e = reencode(d, mode)
                if e is None:
                    return None
                if e != d and e not in [x for _, x in vs]:
                    vs.append(('variant%d' % v, e))
            return Case([('base', d)] + vs, {'fmt': fmt, 'opt': dict(verbose=True, pm=False, nullxml=bool(i % 2))}, True, 'contents') if vs else None
        return [Phase('random', 6000 * k, g, j), Phase('single', len(singles), gs, j), Phase('contents', len(cont), gc, j),
                Phase('huge', 1 if tier == 'quick' else 4, gh, guarded(judge_c16_huge))]


# ---------------------------------------------------------------- C17

PACKET = {'plm': 'plmCount', 'ppm': 'ppmCount', 'plt': 'pltCount', 'ppt': 'pptCount'}


def without_packets(n, counts):
    """Copy without packet-level entries; counts collects mismatches."""
    if n.tag in ('xmlBox', 'uuidBox'):
        return n
    kids = []
    for k in n.kids:
        if k.tag in PACKET and n.find(PACKET[k.tag]) is not None:
            continue
        kids.append(without_packets(k, counts))
    for t, c in PACKET.items():
        e = n.find(c)
        if e is not None:
            have = len([k for k in n.kids if k.tag == t])
            if str(have) != e.text:
                counts.append('%d %s entries below %s, %s says %s' % (have, t, n.tag, c, e.text))
    return sut.N(n.tag, n.text, kids, n.attrib, n.tail)


def judge_c17(case, env):
    path = env.put(case.files[0][1])
    fmt = case.par['fmt']
    base = run(path, fmt)
    bv = run(path, fmt, verbose=True)
    hasnull = b'\0' in case.files[0][1]
    for o in case.par['opts']:
        g = run(path, fmt, **o)
        nm = '[%s %s] ' % (fmt, ' '.join('%s=%s' % kv for kv in sorted(o.items())))
        if g.ok != base.ok or g.verdict != base.verdict:
            return nm + 'verdict %s / %s' % (base.verdict, g.verdict)
        if (g.valid.attrib or {}) != (base.valid.attrib or {}):
            return nm + 'format %s / %s' % (base.valid.attrib, g.valid.attrib)
        if g.warns.flat() != base.warns.flat():
            return nm + 'warnings %r / %r' % (base.warnings(), g.warnings())
        ref_t = bv if o['verbose'] else base
        if g.tests.flat() != ref_t.tests.flat():
            return nm + 'tests differ: ' + str(first_diff({'t': ref_t.tests.flat()}, {'t': g.tests.flat()}))
        if sorted(g.err.splitlines()) != sorted(base.err.splitlines()):
            return nm + 'messages on standard error differ'
        counts = []
        p = g.props
        if o['pm']:
            p = without_packets(p, counts)
            if counts:
                return nm + counts[0]
        q = base.props
        if o['nullxml'] and hasnull:
            keep = lambda n: n.tag in ('xmlBox', 'uuidBox')
            m1, m2 = null_boxes(p), null_boxes(q)
            # an XML or XMP box may gain exactly one element, and only if it had none
            if len(m1) != len(m2):
                return nm + 'number of XML boxes differs'
            for x, y in zip(m1, m2):
                a = [k for k in x.kids if not (k.tag == 'uuid' and x.tag == 'uuidBox')]
                b = [k for k in y.kids if not (k.tag == 'uuid' and y.tag == 'uuidBox')]
                if [k.flat() for k in a] == [k.flat() for k in b]:
                    continue
                if b or len(a) != 1:
                    return nm + 'contents of %s differ' % x.tag
            pf, qf = p.flat(keep), q.flat(keep)
        else:
            pf, qf = p.flat(), q.flat()
        d = first_diff({'properties': qf}, {'properties': pf})
        if d:
            return nm + d
    return None


def null_boxes(n):
    """The XML and UUID boxes below n, without looking into their contents."""
    out = []
    for k in n.kids:
        out += [k] if k.tag in ('xmlBox', 'uuidBox') else null_boxes(k)
    return out


class C17(Check):
    id = 'C17'
    rule = 'distinct (file, option combinations)'

    def phases(self, tier):
        k = SCALE[tier]
        q = tier == 'quick'
        j = guarded(judge_c17)

        def pick_opts(ch):
            return [ch.pick(OPTS[1:]) for _ in range(3)]

        def g(ch, i):
            d, fmt, label = any_file(ch, i)
            if model.heavy(d):
                return None
            return Case([('f', d)], {'fmt': fmt, 'opts': pick_opts(ch)}, True, label)

        def gnull(ch, i):
            fmt = BOXFMTS[i % 2]
            bl = []
            for _ in range(1 + ch.n(3)):
                x = xmlgen.gen_xml(ch)[0] + ch.pick([b'\0', b'', b'\0\0', b' \0'])
                bl.append(Box(b'xml ', 'xml', [R('x', x)]) if ch.n(2) else Box(b'uuid', 'uuid', [R('i', gen.XMP_UUID), R('x', x)]))
            f = tp.wrap(fmt, tp.rich_codestream(fmt, 1 + ch.n(2)) if ch.p(40) else tp.lean_codestream(fmt), mid=bl)
            return Case([('f', f.ser(last=True))], {'fmt': fmt, 'opts': pick_opts(ch)}, True, 'null-terminated')

        class Pk(Small):
            many = True

        def gpk(ch, i):
            """Many packet-level segments."""
            fmt = CSFMTS[i % 2]
            cs = tp.lean_codestream(fmt, 1, ntiles=(1 + ch.n(2), 1), parts=1 + ch.n(2))
            for x in [x for x in cs.kids if isinstance(x, TP)]:
                segs = [gen.gen_plt(ch, z) if ch.p(60) else gen.gen_opaque_seg(ch, b'\xff\x61', 'ppt') for z in range(ch.n(4))]
                x.kids[0:0] = segs
            if i % 60 == 7:
                # more segments than an index byte can count
                t0 = [x for x in cs.kids if isinstance(x, TP)][-1]
                n = ch.int(254, 300)
                t0.kids[0:0] = ch.pick([[Seg(b'\xff\x61', 'ppt', [F('z', 1, z & 255), R('d', b'\1')]) for z in range(n)],
                                        [Seg(b'\xff\x58', 'plt', [F('z', 1, z & 255), R('d', b'\1')]) for z in range(n)]])
                cs.kids[3:3] = ch.pick([[], [Seg(b'\xff\x60', 'ppm', [F('z', 1, z & 255), R('d', b'\1')]) for z in range(n)],
                                        [Seg(b'\xff\x57', 'plm', [F('z', 1, z & 255), F('n', 1, 1), R('d', b'\1')]) for z in range(n)]])
            cs.kids[3:3] = [gen.gen_plm(ch, z) if ch.p(60) else gen.gen_opaque_seg(ch, b'\xff\x60', 'ppm') for z in range(ch.n(4))]
            f = tp.bare(fmt, cs) if ch.p(50) else tp.wrap({'j2c': 'jp2', 'jhc': 'jph'}[fmt], cs)
            if ch.p(30):
                gen.perturb_length(ch, f)
            return Case([('f', f.ser(last=True))], {'fmt': f.fmt, 'opts': pick_opts(ch)}, True, 'packets')
        tmpl = []
        for fmt in FMTS:
            rs = [tp.boxed(fmt), tp.wrap(fmt, tp.rich_codestream(fmt))] if fmt in BOXFMTS else [tp.bare(fmt, tp.rich_codestream(fmt))]
            for r in rs:
                tmpl.append((r.ser(last=True), fmt))

        def gt(ch, i):
            d, fmt = tmpl[i // 24]
            return Case([('f', d)], {'fmt': fmt, 'opts': [OPTS[i % 24]]}, True, 'template')
        texts = [b'', b'\0', b'\0\0', b'\0' * 300, b' ', b' \0', b'\n\0\0', b'<a/>', b'<a/>\0', b'<a/>\0\0\0', b'<a/> \0', b'<a/>\n\0', b'<a/>\0 ',
                 b'<a/>\0\n', b'\0<a/>', b'\0<a/>\0', b'<a>\0</a>', b'<a>\0</a>\0', b'<a/>\0<b/>', b'<a/>\0<b/>\0', b'<a', b'<a\0', b'<a>\0',
                 b'text', b'text\0', b'<a/><b/>\0', b'<a></b>\0', b'\xef\xbb\xbf<a/>', b'\xef\xbb\xbf<a/>\0', b'\xff\xfe<\0a\0/\0>\0', b'\xff\xfe<\0a\0/\0>\0\0',
                 b'\xff\xfe<\0a\0/\0>\0\0\0', '\ufeff<a>\u0100</a>'.encode('utf-16-be') + b'\0', '\ufeff<a/>'.encode('utf-16-be') + b'\0\0',
                 b"<?xml version='1.0'?><a/>\0", b"<?xml version='1.0' encoding='iso-8859-1'?><a>\xe9</a>\0", b"<?xml version='1.0' encoding='utf-8'?><a>\xe9</a>\0",
                 b'<a>x</a>\0', b'<a b="1">t<c/>u</a>\0', b'<a>' + b'<b/>' * 40 + b'</a>\0', b'<x:a/>\0', b'<x:a xmlns:x="u"/>\0', b'<!-- c --><a/>\0',
                 b'<a/><!-- c -->\0', b'<!DOCTYPE a><a/>\0', b'<a/>' + b'\0' * 5000, b'<a>' + b'x' * 70000 + b'</a>\0', b'<plt/>\0', b'<warning>w</warning>\0', b'<a/>\1', b'<a/>\xff']
        meta = []
        for n, x in enumerate(texts):
            for kind in range(6):
                meta.append((x, kind, BOXFMTS[(n + kind) % 2]))

        def gmeta(ch, i):
            x, kind, fmt = meta[i]
            mk_ = [lambda t: Box(b'xml ', 'xml', [R('x', t)]), lambda t: Box(b'uuid', 'uuid', [R('i', gen.XMP_UUID), R('x', t)])]
            a, b = mk_[kind % 2](x), mk_[1 - kind % 2](texts[(i + 7) % len(texts)])
            f = tp.wrap(fmt, tp.lean_codestream(fmt), mid=[a] if kind < 2 else [a, b] if kind < 4 else [b], post=[a] if kind > 3 else [])
            return Case([('f', f.ser(last=True))], {'fmt': fmt, 'opts': [o for o in OPTS[1:] if o['nullxml']]}, True, 'metadata')
        cont = []
        for fmt in BOXFMTS:
            cont += model.special_boxes(fmt) + model.icc_cases(fmt) + model.box_cuts(fmt)
        for fmt in CSFMTS:
            cont += model.special_segments(fmt) + model.tile_cases(fmt) + model.seg_cuts(fmt)
        cont = [c for c in cont if not model.heavy(c[0])][::16 if q else 2]

        def gcont(ch, i):
            return Case([('f', cont[i][0])], {'fmt': cont[i][1], 'opts': [OPTS[1 + (i * 7 + x) % 23] for x in (0, 9, 17)]}, True, 'contents')
        packs = [(m, n, cnt, at) for m in (0xff58, 0xff61, 0xff57, 0xff60) for n in (0, 1, 2, 3, 4, 5, 6, 10, 255, 256, 257, 300, 4000, 65533)
                 for cnt in (1, 2, 3) for at in range(3)]

        def gpacks(ch, i):
            m, n, cnt, at = packs[i]
            fmt = CSFMTS[i % 2]
            cs = tp.lean_codestream(fmt, 1, ntiles=(2, 1), parts=1 + at)
            code = m.to_bytes(2, 'big')
            nm = {0xff58: 'plt', 0xff61: 'ppt', 0xff57: 'plm', 0xff60: 'ppm'}[m]
            segs = [Seg(code, nm, [R('d', (bytes([x]) + b'\1' + b'\x81\x05' * n)[:n])]) for x in range(cnt)]
            if nm in ('plt', 'ppt'):
                tps = [x for x in cs.kids if isinstance(x, TP)]
                tps[[0, -1, len(tps) // 2][at]].kids[0:0] = segs
            else:
                cs.kids[2 + at:2 + at] = segs
            f = tp.bare(fmt, cs) if i % 3 else tp.wrap({'j2c': 'jp2', 'jhc': 'jph'}[fmt], cs)
            return Case([('f', f.ser(last=True))], {'fmt': f.fmt, 'opts': [o for o in OPTS[1:] if o['pm']][i % 4::4]}, True, 'packet segments')
        sq = model.box_sequences('quick')[::16 if q else 2]

        def gseq(ch, i):
            level, s_, fmt = sq[i]
            return Case([('f', model.build_sequence(level, s_, fmt))], {'fmt': fmt, 'opts': [OPTS[1 + (i * 7 + x) % 23] for x in (0, 9, 17)]}, True, 'sequence')
        return [Phase('random', 3000 * k, g, j), Phase('null-terminated', 900 * k, gnull, j), Phase('packets', 1500 * k, gpk, j),
                Phase('templates', len(tmpl) * 24, gt, j), Phase('metadata', len(meta), gmeta, j), Phase('contents', len(cont), gcont, j),
                Phase('sequences', len(sq), gseq, j), Phase('packet-segments', len(packs), gpacks, j)]


# ---------------------------------------------------------------- C20

def near(got, want, tol=Fraction(1, 2)):
    try:
        return abs(Fraction(got) - want) <= tol + abs(want) / 10 ** 12
    except (ValueError, TypeError, ZeroDivisionError):
        return False


XAP, TIFF, AUX, RDF = xmlgen.XAP, xmlgen.TIFF, xmlgen.AUX, xmlgen.RDF


def judge_c20(case, env):
    path = env.put(case.files[0][1])
    fmt = case.par['fmt']
    for ver in (1, 2):
        g = run(path, fmt, mix=ver)
        if not g.ok:
            raise Broken('the analysis failed with MIX %d' % ver)
        recs = [k for k in g.ext.kids] if g.ext is not None else []
        if fmt in CSFMTS or g.verdict != 'True':
            if recs:
                return '[%s mix %d] MIX record for a file that is not valid or a codestream' % (fmt, ver)
            continue
        if len(recs) != 1 or recs[0].tag != 'mix:mix':
            return '[%s mix %d] %d MIX records' % (fmt, ver, len(recs))
        m = check_mix(recs[0], g.props, ver)
        if m:
            return '[%s mix %d] %s' % (fmt, ver, m)
    return None


def check_mix(rec, P, ver):
    X = lambda *p: rec.val(*['mix:' + x for x in p])
    A = lambda *p: [k.text for k in alls(rec, ['mix:' + x for x in p])]

    def need(what, got, want):
        if got != want:
            raise Broken('MIX %s is %r, the report says %r' % (what, got, want))
    ns = {1: 'http://www.loc.gov/mix/v10', 2: 'http://www.loc.gov/mix/v20'}[ver]
    need('namespace', rec.attrib.get('xmlns:mix'), ns)
    if ns not in rec.attrib.get('xsi:schemaLocation', ''):
        return 'MIX schema location %r' % rec.attrib.get('xsi:schemaLocation')
    B, C = 'BasicDigitalObjectInformation', 'BasicImageInformation'
    need('format name', X(B, 'FormatDesignation', 'formatName'), 'image/' + P.val('fileTypeBox', 'br').strip())
    need('byte order', X(B, 'byteOrder'), 'big_endian' if ver == 1 else 'big endian')
    tr = P.val('contiguousCodestreamBox', 'cod', 'transformation')
    need('compression scheme', X(B, 'Compression', 'compressionScheme'), 'JPEG 2000 Lossless' if tr == '5-3 reversible' else 'JPEG 2000 Lossy')
    ratio = Fraction(P.val('compressionRatio'))
    if ver == 1:
        if not near(X(B, 'Compression', 'compressionRatio'), ratio):
            return 'MIX compression ratio %s, the report says %s' % (X(B, 'Compression', 'compressionRatio'), ratio)
    else:
        need('ratio denominator', X(B, 'Compression', 'compressionRatio', 'denominator'), '100')
        if not near(X(B, 'Compression', 'compressionRatio', 'numerator'), ratio * 100):
            return 'MIX compression ratio %s/100, the report says %s' % (X(B, 'Compression', 'compressionRatio', 'numerator'), float(ratio))
    D = (C, 'BasicImageCharacteristics')
    need('width', X(*D, 'imageWidth'), P.val('jp2HeaderBox', 'imageHeaderBox', 'width'))
    need('height', X(*D, 'imageHeight'), P.val('jp2HeaderBox', 'imageHeaderBox', 'height'))
    icc = P.find('jp2HeaderBox', 'colourSpecificationBox', 'icc')
    cs = X(*D, 'PhotometricInterpretation', 'colorSpace')
    prof = A(*D, 'PhotometricInterpretation', 'ColorProfile', 'IccProfile', 'iccProfileName')
    if icc is not None:
        need('colour space', cs, icc.val('colourSpace').strip())
        need('ICC profile name', [x or '' for x in prof], [icc.val('description') or ''])
    else:
        en = P.find('jp2HeaderBox', 'colourSpecificationBox', 'enumCS')
        need('colour space', cs, en.text.strip() if en is not None else None)
        need('ICC profile name', prof, [])
    J = (C, 'SpecialFormatCharacteristics', 'JPEG2000')
    com = P.find('contiguousCodestreamBox', 'com', 'comment')
    codec, cver = A(*J, 'CodecCompliance', 'codec'), A(*J, 'CodecCompliance', 'codecVersion')
    t = (com.text or '') if com is not None else ''
    if '-v' not in t:
        need('codec', codec, [])
        need('codec version', cver, [])
    elif all(' ' <= c <= '~' or c == '\n' for c in t):
        # name and version around the last '-v' of the first line that has one
        name, _, rest = next(x for x in t.split('\n') if '-v' in x).rpartition('-v')
        if name:
            need('codec', codec, [name])
            if rest[:1].isdigit():
                need('codec version', cver, [re.match(r'[0-9.]*', rest).group()])
    E = J + ('EncodingOptions',)
    tx, ty = P.val('contiguousCodestreamBox', 'siz', 'xTsiz'), P.val('contiguousCodestreamBox', 'siz', 'yTsiz')
    if ver == 1:
        need('tiles', X(*E, 'tiles'), tx + 'x' + ty)
    else:
        need('tile width', X(*E, 'Tiles', 'tileWidth'), tx)
        need('tile height', X(*E, 'Tiles', 'tileHeight'), ty)
    for nm, pn in (('qualityLayers', 'layers'), ('resolutionLevels', 'levels')):
        v = P.val('contiguousCodestreamBox', 'cod', pn)
        got = X(*E, nm)
        if not (v == '0' and got is None):
            need(nm, got, v)
    # capture metadata
    M = 'ImageCaptureMetadata'
    rdf = None
    for b in ('xmlBox', 'uuidBox'):
        rdf = P.find(b, '{adobe:ns:meta/}xmpmeta', '{%s}RDF' % RDF)
        if rdf is not None and rdf.kids:
            break
        rdf = None
    GC, SC = (M, 'GeneralCaptureInformation'), (M, 'ScannerCapture')
    tags = [(XAP, 'CreateDate', GC + ('dateTimeCreated',)), (TIFF, 'Artist', GC + ('imageProducer',)), (TIFF, 'Make', SC + ('scannerManufacturer',)),
            (TIFF, 'Model', SC + ('ScannerModel', 'scannerModelName')), (AUX, 'SerialNumber', SC + ('ScannerModel', 'scannerModelSerialNo'))]

    def lookup(ns_, tag):
        if rdf is None:
            return None
        descs = rdf.all('{%s}Description' % RDF)
        for d in descs:
            k = d.find('{%s}%s' % (ns_, tag))
            if k is not None:
                return k.text
        if descs:
            return descs[0].attrib.get('{%s}%s' % (ns_, tag)) or None
        return None
    for ns_, tag, where in tags:
        v = lookup(ns_, tag)
        if v is not None:
            need(tag, X(*where), v.strip())
        else:
            need(tag, X(*where), None)
    v = lookup(XAP, 'CreatorTool')
    got = X(*SC, 'ScanningSystemSoftware', 'scanningSoftwareName')
    gotv = X(*SC, 'ScanningSystemSoftware', 'scanningSoftwareVersionNo')
    if v is None:
        need('software', got, None)
    else:
        mm = re.fullmatch(r'([ -~]*[!-~]) ([0-9][0-9.]*)', v)
        if mm:
            need('software', (got, gotv), (mm.group(1), mm.group(2)))
        elif not re.search(r' [0-9.]*$', v):
            need('software', (got, gotv), (v, None))
    # sampling
    R_ = ('ImageAssessmentMetadata', 'SpatialMetrics')
    res = P.find('jp2HeaderBox', 'resolutionBox', 'captureResolutionBox')
    letter = 'c'
    if res is None:
        res = P.find('jp2HeaderBox', 'resolutionBox', 'displayResolutionBox')
        letter = 'd'
    if res is None:
        need('sampling frequency', rec.find(*['mix:' + x for x in R_]), None)
    else:
        need('sampling unit', X(*R_, 'samplingFrequencyUnit'), '3' if ver == 1 else 'cm')
        for ax, pre in (('x', 'h'), ('y', 'v')):
            want = Fraction(res.val('%sRes%sInPixelsPerMeter' % (pre, letter))) * 100
            need('sampling denominator', X(*R_, ax + 'SamplingFrequency', 'denominator'), '10000')
            got = X(*R_, ax + 'SamplingFrequency', 'numerator')
            if not near(got, want, Fraction(1, 2) + abs(want) / 10 ** 9):
                return 'MIX %s sampling frequency %s/10000 per cm, the report says %s per m' % (ax, got, float(want / 100))
    K = ('ImageAssessmentMetadata', 'ImageColorEncoding')
    depths = [k.text for k in P.find('contiguousCodestreamBox', 'siz').all('ssizDepth')]
    if ver == 1:
        need('bits per sample', X(*K, 'bitsPerSample', 'bitsPerSampleValue'), ','.join(depths))
        need('unit', X(*K, 'bitsPerSample', 'bitsPerSampleUnit'), 'integer')
    else:
        need('bits per sample', A(*K, 'BitsPerSample', 'bitsPerSampleValue'), depths)
        need('unit', X(*K, 'BitsPerSample', 'bitsPerSampleUnit'), 'integer')
    need('samples per pixel', X(*K, 'samplesPerPixel'), P.val('contiguousCodestreamBox', 'siz', 'csiz'))
    return None


def alls(n, path):
    cur = [n]
    for p in path:
        cur = [k for c in cur for k in c.kids if k.tag == p]
    return cur


class C20(Check):
    id = 'C20'
    rule = 'distinct files; valid JP2 and JPH files (which get a MIX record) and files that must not get one'

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c20)

        def g(ch, i):
            fmt = BOXFMTS[i % 2]
            f = gen.gen_file(ch, fmt, Small)
            return mk(f.ser(last=True), fmt, 'conforming')

        def gx(ch, i):
            """Chosen colour, resolution, comment and XMP contents."""
            fmt = BOXFMTS[i % 2]
            csiz = 1 + ch.n(4)
            depths = [ch.n(2) << 7 | ch.int(0, 37) for _ in range(csiz)]
            cs = tp.lean_codestream(fmt, csiz, depths, ntiles=(1 + ch.n(2), 1), data=bytes(ch.int(1, 300)))
            for x in cs.kids:
                for y in getattr(x, 'kids', ()):
                    if getattr(y, 'name', '') == 'cod.transf':
                        y.val = ch.n(2)
                    if getattr(y, 'name', '') == 'cod.layers':
                        y.val = ch.int(1, 65535)
                    if getattr(y, 'name', '') == 'cod.levels':
                        y.val = ch.int(0, 32)
            segs = []
            for _ in range(ch.n(3)):
                t = ch.pick([b'Kakadu-v7.2.2', b'OpenJPEG-v2', b'Created by x', b'A-v1.0', b'Aware JPEG-v3.18.0.1', b'no codec', b'x', b'My very own codec-v10', b'Kakadu 7-v0.0',
                             b'LuraWave JP2-v2.1.10.07', b'x-y_z (beta)-v12.34', b'codec-v', b'a.b-v2', b'Kakadu-v2-v7.10', b'-v1-v2-v3', b'first line\nKakadu-v6.1\nmore', b'A-v1\nB-v2',
                             b'codec-v1.2 beta 3', b'My-very-v-own-v4.', b'x-v5-y'])
                segs.append(Seg(b'\xff\x64', 'com', [F('r', 2, 1), R('t', t)]))
            if ch.p(15):
                segs.insert(0, Seg(b'\xff\x64', 'com', [F('r', 2, 0), R('t', b'\1\2')]))
            cs.kids[3:3] = segs
            if ch.p(25):
                # component and region overrides ahead of the defaults
                pos = next(j for j, x in enumerate(cs.kids) if getattr(x, 'code', b'') == b'\xff\x52')
                cs.kids[pos:pos] = [gen.gen_coc(ch, fmt, csiz, c) for c in range(1 + ch.n(csiz))]
            if ch.p(40):
                # asymmetric tiles
                siz = next(x for x in cs.kids if getattr(x, 'code', b'') == b'\xff\x51')
                vals = {y.name[4:]: y for y in siz.kids}
                for a in 'xy':
                    n = vals[a + 'siz'].val // 16
                    vals[a + 'Tsiz'].val = ch.int(1, 3000)
                    vals[a + 'siz'].val = n * vals[a + 'Tsiz'].val
                cs.geo = (vals['xsiz'].val, vals['ysiz'].val) + tuple(cs.geo[2:])
            if ch.p(30):
                # tile header overrides must not be mistaken for the main header
                t0 = [x for x in cs.kids if isinstance(x, TP)][0]
                t0.kids[0:0] = [gen.gen_cod(ch, fmt), Seg(b'\xff\x64', 'com', [F('r', 2, 1), R('t', b'Tile-v9.9')])]
            hdr = []
            for _ in range(1 + (ch.n(2) if ch.p(40) else 0)):
                k_ = ch.n(4)
                if k_ == 0:
                    hdr.append(tp.colr_enum(ch.pick([16, 17, 18])))
                elif k_ == 1:
                    ic = tp.icc(name=ch.pick([b'sRGB IEC61966-2.1', b'A', b'', b'eciRGB v2', b' pad ']))
                    for y in ic.kids:
                        if y.name == 'icc.space':
                            y.val = int.from_bytes(ch.pick([b'RGB ', b'GRAY', b'Lab ', b'XYZ ']), 'big')
                    hdr.append(Box(b'colr', 'colr', [F('m', 1, 2), F('p', 1, 0), F('a', 1, 0), ic]))
                elif fmt == 'jph':
                    hdr.append(tp.colr_param())
                else:
                    hdr.append(gen.gen_colr(ch, fmt))
            rk = ch.n(5)
            rb = []
            n16 = lambda: ch.int(1, 65535)
            e8 = lambda: ch.pick([0, 1, 2, 3, 254, 253, 252, 250])
            for t, bit in ((b'resc', 1), (b'resd', 2)):
                if rk & bit:
                    rb.append(Box(t, 'r', [F('a', 2, n16()), F('b', 2, n16()), F('c', 2, n16()), F('d', 2, n16()), F('e', 1, e8()), F('f', 1, e8())]))
            if rb:
                if ch.p(30):
                    rb.reverse()
                hdr.append(Box(b'res ', 'res', rb))
            mid = []
            for _ in range(ch.n(3)):
                x = xmlgen.gen_xmp(ch) if ch.p(75) else xmlgen.gen_tree(ch)
                d = xmlgen.to_text(ch, x, {}).encode('utf-8')
                mid.append(Box(b'xml ', 'xml', [R('x', d)]) if ch.p(50) else Box(b'uuid', 'uuid', [R('i', gen.XMP_UUID), R('x', d)]))
            f = tp.wrap(fmt, cs, hdr, mid=mid, unkc=ch.n(2))
            return mk(f.ser(last=True), fmt, 'chosen')

        def gn(ch, i):
            d, fmt, label = any_file(ch, i)
            return mk(d, fmt, label)
        return [Phase('conforming', 6000 * k, g, j), Phase('chosen', 16000 * k, gx, j), Phase('any', 5000 * k, gn, j)]


# ---------------------------------------------------------------- C21

def report_key(path, fmt, o):
    """Everything in the report, as text."""
    try:
        r = sut.analyse(path, fmt, **o)
    except sut.Raised as e:
        return 'raised ' + str(e)
    return repr(r.root.flat()) + '\n' + r.err


def snapshot(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in dn + fn:
            p = os.path.join(dp, f)
            st = os.lstat(p)
            if os.path.isdir(p):
                out[os.path.relpath(p, d)] = (st.st_mode, st.st_mtime_ns)
                continue
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, h.read())
    return out


def judge_c21(case, env):
    d = env.fresh()
    paths = []
    for n, (nm, data) in enumerate(case.files):
        p = os.path.join(d, case.par.get('dirs', ['', 'sub', ''])[n % 3], nm)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        os.utime(p, (1000000000 + n * 86400, 1000000000 + n * 86400))
        paths.append(p)
    before = snapshot(d)
    steps = case.par['steps']
    # every other file is named relative to the working directory
    names = [os.path.relpath(p, d) if n % 2 else p for n, p in enumerate(paths)]

    def change(step):
        """Give the file of a step the contents of another one (in place), with the same or another modification time."""
        fi, (ver, dt) = step[0], step[3] if len(step) > 3 else (step[0], 0)
        if now_in[fi] == (ver, dt):
            return
        now_in[fi] = (ver, dt)
        with open(paths[fi], 'r+b') as f:
            f.write(case.files[ver % len(case.files)][1])
            f.truncate()
        t = 1000000000 + fi * 86400 + dt
        os.utime(paths[fi], (t, t))
    now_in = {n: (n, 0) for n in range(len(paths))}

    def settings():
        import locale
        import signal
        m = os.umask(0o22)
        os.umask(m)
        sig = [s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)]
        return {'working directory': os.getcwd(), 'environment': sorted(os.environ.items()), 'umask': m, 'recursion limit': sys.getrecursionlimit(),
                'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)], 'locale': locale.setlocale(locale.LC_ALL),
                'signal handlers': [str(signal.getsignal(s)) for s in sig]}

    def history():
        out = []
        os.chdir(d)
        was = settings()
        cwd = os.listdir('.')
        nfd = len(os.listdir('/proc/self/fd'))
        nmap = sum(1 for l in open('/proc/self/maps') if d in l)
        t0 = time.process_time()
        for step in steps:
            fi, fmt, o = step[:3]
            change(step)
            out.append(report_key(names[fi], fmt, o))
            if time.process_time() - t0 > 1.5:
                # files with huge counts take seconds: shorten the history
                break
        import gc
        gc.collect()
        extra = len(os.listdir('/proc/self/fd')) - nfd
        emap = sum(1 for l in open('/proc/self/maps') if d in l) - nmap
        for fi in range(len(paths)):
            change((fi,))
        now = settings()
        changed = [k for k in was if was[k] != now[k]]
        os.chdir(d)
        new = sorted(set(os.listdir('.')) - set(cwd))
        return [out, extra, emap, new, changed]
    st, r = in_child(history)
    if st != 'ok':
        raise Broken('the analysis of the sequence did not finish: %s %s' % (st, r))
    seq, extra, emap, new, changed = r
    if changed:
        return 'settings of the process changed by the analysis: %s' % ', '.join(changed)
    if new:
        return 'files created in the current directory: %s' % new
    after = snapshot(d)
    if after != before:
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        return 'files changed or created by the analysis: %s' % ch
    if extra > 0:
        return '%d files left open after %d analyses' % (extra, len(steps))
    if emap > 0:
        return '%d memory maps of input files left after %d analyses' % (emap, len(steps))
    seen = {}
    for n, step in enumerate(steps[:len(seq)]):
        fi, fmt, o = step[:3]
        key = (fi, fmt, json.dumps(o, sort_keys=True), tuple(step[3]) if len(step) > 3 else (fi, 0))
        if key in seen:
            if seen[key] != seq[n]:
                return 'step %d: second report on the same file differs from the first: %s' % (n, textdiff(seen[key], seq[n]))
        else:
            seen[key] = seq[n]
    uniq = list(seen.items())
    for (fi, fmt, oj, vd), got in uniq[:case.par.get('fresh', 4) if len(seq) == len(steps) else 1]:
        o = json.loads(oj)
        def lone():
            os.chdir(d)
            change((fi, fmt, o, vd))
            return report_key(names[fi], fmt, o)
        st, alone = in_child(lone)
        now_in[fi] = vd
        change((fi,))
        if st != 'ok':
            raise Broken('the analysis did not finish: %s' % st)
        if alone != got:
            return 'report on file %d (%s, %s) depends on what was analysed before: %s' % (fi, fmt, o, textdiff(alone, got))
    return None


def textdiff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...%s | ...%s' % (a[max(0, n - 80):n + 60], b[max(0, n - 80):n + 60])


DIRNAMES = ['', 'sub', 'a/b/c', 'd' * 100 + '/' + 'e' * 100, 'x' * 200 + '/' + 'y' * 200 + '/' + 'z' * 200, 'with space', 'caf\u00e9', '.hidden', '-r', 'tests', 'tmp', '/'.join('n' * 60)]
STEMS = ['', 'a b ', '\u00e9', '.', '-', 'x' * 200, 'README', "q'\"", '%s']


class C21(Check):
    id = 'C21'
    rule = 'distinct histories of at least two analyses in one process'
    shrink_budget = 80

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c21)

        def g(ch, i):
            nf = 2 + ch.n(4)
            files = []
            fm = []
            for n in range(nf):
                if ch.p(8):
                    files.append(('f%d.jp2' % n, ch.pick([b'', b'\0', b'junk', b'\xff\x4f\xff\x51'])))
                    fm.append('jp2')
                    continue
                if n and ch.p(25):
                    # variant of an earlier file: same size or same header
                    b = bytearray(files[-1][1])
                    if b:
                        b[ch.n(len(b))] ^= 1 << ch.n(8)
                    files.append(('f%d.jp2' % n, bytes(b)))
                    fm.append(fm[-1])
                    continue
                d, fmt, label = any_file(ch, ch.n(4), only=light)
                files.append(('f%d.jp2' % n, d[:200000]))
                fm.append(fmt)
            steps = []
            for _ in range(ch.int(2, 12)):
                fi = ch.n(nf)
                steps.append((fi, fm[fi] if ch.p(80) else ch.pick(FMTS), ch.pick(OPTS) if ch.p(50) else OPTS[0]))
            if ch.p(20):
                # the same again at the end
                steps.append(steps[0])
            # order so that the last steps are checked against a fresh process as well
            if ch.p(35):
                # files are replaced between the analyses, also by others of the same size and with the same modification time
                steps = [st_ + ((ch.n(nf) if ch.p(60) else st_[0], ch.pick([0, 0, 0, 1, -5, 3600])),) if ch.p(60) else st_ for st_ in steps]
            par = {'steps': steps, 'fresh': 6}
            if ch.p(20):
                # the same name in different directories
                par['dirs'] = ch.shuffle(['', 'sub', 'other'])
                files = [('f%d.jp2' % (n // 3), b) for n, (nm, b) in enumerate(files)]
            elif ch.p(30):
                # other directories and names; a directory of its own for each of them
                par['dirs'] = [ch.pick(DIRNAMES) for _ in range(3)]
                files = [(ch.pick(STEMS) + nm, b) for nm, b in files]
            return Case(files, par, True, 'history %d' % len(steps))

        def glong(ch, i):
            files = []
            fm = []
            for n in range(4):
                d, fmt, label = any_file(ch, n, only=light)
                files.append(('f%d.jp2' % n, d[:100000]))
                fm.append(fmt)
            steps = []
            for n in range(150):
                fi = ch.n(4)
                steps.append((fi, fm[fi], OPTS[0] if ch.p(70) else ch.pick(OPTS)))
            return Case(files, {'steps': steps, 'fresh': 8}, True, 'long')
        return [Phase('histories', 1600 * k, g, j), Phase('long', 24 * k, glong, j)]


# ---------------------------------------------------------------- C24

def judge_c24(case, env):
    data = case.files[0][1]
    path = env.put(data)
    fmt = case.par['fmt']
    g = run(path, fmt, pm=True, verbose=True)
    if not g.ok:
        raise Broken('the analysis failed')
    cs = g.props if fmt in CSFMTS else g.props.find('contiguousCodestreamBox')
    if case.par.get('exact'):
        def lengths(n, nm):
            """Reported lengths of an entry."""
            out = []
            for k in n.kids:
                if k.tag not in ('l' + nm, 'z' + nm, 'n' + nm):
                    out += [x for x in re.split(r'[\s,;]+', (k.text or '').strip('[] ')) if x]
            return out

        def cmp(where, entries, want, nm):
            if len(entries) != len(want):
                return '%s: %d %s entries, %d in the file' % (where, len(entries), nm, len(want))
            for n, (e, w) in enumerate(zip(entries, want)):
                if e.val('l' + nm) != str(w['l']) or e.val('z' + nm) != str(w['z']):
                    return '%s, %s %d: length %s index %s, in the file %s %s' % (where, nm, n, e.val('l' + nm), e.val('z' + nm), w['l'], w['z'])
                got = [str(int(x, 16)) for x in lengths(e, nm)]
                if got != [str(x) for x in w['lens']]:
                    return '%s, %s %d: packet lengths %s, in the file %s' % (where, nm, n, got[:12], w['lens'][:12])
            return None
        m = cmp('main header', cs.all('plm'), case.par['plm'], 'plm')
        if m:
            return m
        tps = cs.find('tileParts')
        tps = tps.all('tilePart') if tps is not None else []
        if len(tps) != len(case.par['plt']):
            return '%d tile-parts reported, %d in the file' % (len(tps), len(case.par['plt']))
        for n, (t, w) in enumerate(zip(tps, case.par['plt'])):
            m = cmp('tile-part %d' % n, t.all('plt'), w, 'plt')
            if m:
                return m
    e = ref.analyse(data, fmt, True)
    for d in compare.diff(e.props, g.props):
        p = rel(d)
        if any(x in ('plt', 'plm', 'ppt', 'ppm', 'pltCount', 'plmCount', 'pptCount', 'ppmCount') for x in p):
            return '[%s] %s' % (fmt, d)
    return None


class C24(Check):
    id = 'C24'
    rule = 'distinct codestreams with at least one packet-length segment'

    def phases(self, tier):
        k = SCALE[tier]
        j = guarded(judge_c24)

        def lens(ch, n):
            return gen.gen_lengths(ch, n)

        def seg(nm, z, ls):
            d = b''.join(map(gen.enc_packet_length, ls))
            if nm == 'plt':
                return Seg(b'\xff\x58', 'plt', [F('z', 1, z), R('d', d)]), {'l': len(d) + 3, 'z': z, 'lens': ls}
            return Seg(b'\xff\x57', 'plm', [F('z', 1, z), F('n', 1, min(255, len(d))), R('d', d)]), {'l': len(d) + 4, 'z': z, 'lens': ls}

        def build(fmt, plm, plts, parts):
            cs = tp.lean_codestream(fmt if fmt in CSFMTS else {'jp2': 'j2c', 'jph': 'jhc'}[fmt], 1, ntiles=(parts, 1))
            cs.kids[3:3] = [s for s, _ in plm]
            ts = [x for x in cs.kids if isinstance(x, TP)]
            for t, p in zip(ts, plts):
                t.kids[0:0] = [s for s, _ in p]
            return tp.bare(fmt, cs) if fmt in CSFMTS else tp.wrap(fmt, cs)

        def g(ch, i):
            fmt = FMTS[i % 4]
            parts = 1 + ch.n(3)
            plm = [seg('plm', ch.pick([z, ch.n(256)]), [v for v in lens(ch, ch.small(0, 30))]) for z in range(ch.n(3))]
            plm = [x for x in plm if len(x[0].kids[2].data) <= 255]
            plts = [[seg('plt', ch.pick([z, ch.n(256)]), lens(ch, ch.small(0, 60))) for z in range(ch.n(4))] for _ in range(parts)]
            f = build(fmt, plm, plts, parts)
            return mk(f.ser(last=True), fmt, 'exact', bool(plm or any(plts)), exact=True, plm=[m for _, m in plm], plt=[[m for _, m in p] for p in plts])
        # every number of bytes, boundary and dictionary values
        vals = sorted({(1 << b) + d for b in range(0, 36) for d in (-1, 0, 1) if 0 <= (1 << b) + d < 1 << 35} | set(harvest.ints()))
        vals = [v for v in vals if v < 1 << 35]
        single = []
        for fmt in CSFMTS:
            for v in vals:
                for ctx in ([v], [v, v], [1, v, 2], [v, 0], [0, v], [300, v, 70000]):
                    single.append((fmt, ctx))
            for n in (0, 1, 2, 100, 127, 128, 250, 255, 256, 1000, 10000):
                single.append((fmt, [5] * n))
                single.append((fmt, [200] * n))
                single.append((fmt, list(range(n))))

        def gs(ch, i):
            fmt, ls = single[i]
            ok = len(b''.join(map(gen.enc_packet_length, ls))) <= 251
            plm = [seg('plm', 0, ls)] if ok else []
            plts = [[seg('plt', 3, ls)]]
            f = build(fmt, plm, plts, 1)
            return mk(f.ser(last=True), fmt, 'single', exact=True, plm=[m for _, m in plm], plt=[[m for _, m in p] for p in plts])

        def gd(ch, i):
            """Damaged lists."""
            fmt = FMTS[i % 4]
            plm = [seg('plm', z, lens(ch, ch.small(0, 6))) for z in range(ch.n(2))]
            plts = [[seg('plt', z, lens(ch, ch.small(0, 12))) for z in range(1 + ch.n(2))] for _ in range(2)]
            for s, _ in plm + [x for p in plts for x in p]:
                d = bytearray(s.kids[-1].data)
                op = ch.n(5)
                if op == 0:
                    d = d[:ch.n(len(d) + 1)]
                elif op == 1:
                    d += ch.blob(ch.n(6))
                elif op == 2 and d:
                    d[ch.n(len(d))] ^= 128
                elif op == 3:
                    d += b'\x80' * ch.n(20)
                s.kids[-1] = R('d', bytes(d))
                if ch.p(15):
                    s.length = max(0, len(d) + 3 + ch.pick([-3, -2, -1, 1, 2, 5]))
                if s.name == 'plm' and ch.p(20):
                    s.kids[1].val = ch.n(256)
            f = build(fmt, plm, plts, 2)
            data = f.ser(last=True)
            if ch.p(20):
                data = data[:ch.n(len(data) + 1)]
            return mk(data, fmt, 'damaged')
        return [Phase('exact', 16000 * k, g, j), model.count_phase('seg', j, lambda kind, n, bad: kind[:2] in ('pl', 'pp')), Phase('single', len(single), gs, j), Phase('damaged', 16000 * k, gd, j)]


# ---------------------------------------------------------------- C25

def judge_c25(case, env):
    path = env.put(case.files[0][1])
    for fmt in case.par['fmts']:
        for o in case.par['opts']:
            outs = []
            for m in (None, sut.module_nommap()):
                try:
                    r = sut.analyse(path, fmt, m=m, **o)
                    outs.append({'status': r.status.flat(), 'verdict': r.valid.flat(), 'tests': r.tests.flat(), 'properties': r.props.flat(),
                                 'extension': r.ext.flat() if r.ext is not None else [],
                                 'warnings': [w for w in r.warns.flat() if not w[2].startswith('empty file')]})
                except sut.Raised as e:
                    outs.append({'raised': [str(e)]})
            if outs[0].keys() != outs[1].keys():
                return '[%s %s] raised: %s / %s' % (fmt, o, outs[0].get('raised'), outs[1].get('raised'))
            d = first_diff(outs[0], outs[1])
            if d:
                return '[%s %s] with and without memory mapping: %s' % (fmt, o, d)
    return None


class C25(Check):
    id = 'C25'
    rule = 'distinct (file, format, options)'

    def prepare(self):
        sut.module()
        sut.module_nommap()

    def phases(self, tier):
        k = SCALE[tier]
        q = tier == 'quick'
        j = guarded(judge_c25)
        sp = special_files()

        def g(ch, i):
            d, fmt, label = any_file(ch, i)
            if model.heavy(d):
                return None
            return Case([('f', d)], c01_par(ch, fmt), True, label)

        def gs(ch, i):
            return Case([('f', sp[i])], {'fmts': list(FMTS) if len(sp[i]) < 500 and not model.slow(sp[i]) else ['jp2'], 'opts': [OPTS[i % 24]]}, True, 'special')

        def gcut(ch, i):
            fmt = FMTS[i % 4]
            data = (tp.boxed(fmt) if fmt in BOXFMTS else tp.bare(fmt, tp.rich_codestream(fmt))).ser(last=True)
            return Case([('f', data[:ch.n(len(data) + 1)])], c01_par(ch, fmt), True, 'truncated')
        cont = []
        for fmt in BOXFMTS:
            cont += model.special_boxes(fmt) + model.icc_cases(fmt)
        for fmt in CSFMTS:
            cont += model.special_segments(fmt) + model.tile_cases(fmt)
        cont = cont[::4 if q else 1]

        def gc(ch, i):
            c = cont[i]
            return Case([('f', c[0])], {'fmts': [c[1]], 'opts': [OPTS[i % 24]]}, True, 'contents')

        def gbig(ch, i):
            d, fmt, label = model.big_file(i)
            if ch.n(4) == 0:
                d = d[:len(d) - 1 - ch.n(20)]
            return Case([('f', d)], {'fmts': [fmt], 'opts': [OPTS[i % 24]]}, True, label)
        return [Phase('large', model.big_count(tier), gbig, j), Phase('random', 3000 * k, g, j), Phase('special', len(sp), gs, j),
                Phase('truncated', 1500 * k, gcut, j), Phase('contents', len(cont), gc, j)]
