"""Checks that compare the report with the reference model: C03, C05 - C13."""
import copy
import itertools

from .. import compare, gen, harvest, ref, sut, templates as tp
from ..ast import Box, Cont, F, Mark, R, Seg, TP
from ..engine import Case, Phase, Skip
from .common import (BASE_ASSUMPTIONS, BOXFMTS, CSFMTS, FMTS, SCALE, Broken, Check, failed, guarded, in_codestream, rel, run)

# ---------------------------------------------------------------- facets

C05_PREFIX = ('contains', 'noMoreThanOne', 'firstBox', 'secondBox', 'firstJP2HeaderBox', 'location',
              'colourSpecificationBoxesAreContiguous', 'paletteAndComponentMappingBoxesOnlyTogether', 'noZeroCTypes')
SUPER = ('jp2HeaderBox', 'resolutionBox', 'uuidInfoBox')
C08_NAMES = ('foundExpectedNumberOfTiles', 'foundExpectedNumberOfTileParts', 'foundEOCMarker', 'tileParts')
DERIVED = {
    'compressionRatio', 'numberOfTiles', 'vRescInPixelsPerMeter', 'hRescInPixelsPerMeter', 'vRescInPixelsPerInch',
    'hRescInPixelsPerInch', 'vResdInPixelsPerMeter', 'hResdInPixelsPerMeter', 'vResdInPixelsPerInch', 'hResdInPixelsPerInch',
    'capability', 'rsiz', 'profileVersion', 'dateTimeString', 'connectionSpaceIlluminantX', 'connectionSpaceIlluminantY',
    'connectionSpaceIlluminantZ', 'codeBlockWidth', 'codeBlockHeight', 'precinctSizeX', 'precinctSizeY', 'htB', 'PRFnum',
    'CPFnum', 'pcapPart', 'bPCDepth', 'ssizDepth', 'profileID', 'htCodeBlocks', 'htSets', 'htRegion', 'htHomogeneous',
    'htReversible', 'guardBits', 'mu', 'epsilon', 'bDepth'}


def is_c05(path):
    return path[-1].startswith(C05_PREFIX)


def is_c08(path):
    return any(p in C08_NAMES for p in path)


def is_c09(path):
    return path[-1].endswith('ConsistentWithSIZ')


def facet_test(pid, path, fmt):
    cs = in_codestream(path, fmt)
    if pid == 'C05':
        return not cs and (is_c05(path) or path[-1] in SUPER or path[-1].endswith('Box'))
    if pid == 'C06':
        return not cs and not is_c05(path) and not is_c09(path)
    if pid == 'C07':
        return cs and not is_c08(path)
    if pid == 'C08':
        return cs and is_c08(path)
    if pid == 'C09':
        return is_c09(path)
    if pid == 'C10':
        return True
    return False


def facet_prop(pid, path, fmt):
    cs = in_codestream(path, fmt)
    leaf = path[-1]
    if leaf.startswith('{') or any(p.startswith('{') for p in path):
        return pid == 'C11'
    if pid == 'C11':
        return not cs and leaf != 'compressionRatio'
    if pid == 'C12':
        return cs and leaf != 'compressionRatio'
    if pid == 'C13':
        return leaf in DERIVED
    return False


def judge_model(pid, tests=True, props=True):
    """Compare the report with the reference model; only differences of this property count."""

    def judge(case, env):
        data = case.files[0][1]
        path = env.put(data)
        fmts = case.par.get('fmts') or [case.par['fmt']]
        for fmt in fmts:
            pm, nullxml = case.par.get('pm', False), case.par.get('nullxml', False)
            e = ref.analyse(data, fmt, pm, nullxml)
            g = run(path, fmt, verbose=True, pm=pm, nullxml=nullxml)
            if not g.ok:
                raise Broken('the analysis failed: %s' % (g.status.val('failureMessage'),))
            msgs = []
            if tests:
                for d in compare.diff(e.tests, g.tests):
                    if facet_test(pid, ('tests',) + rel(d), fmt):
                        msgs.append('test outcome: ' + str(d))
                if pid == 'C10' and (g.valid.attrib or {}).get('format') != fmt:
                    msgs.append('format named in the report: %r, selected: %r' % (g.valid.attrib, fmt))
                mine = [p for p in failed(e.tests) if facet_test(pid, p, fmt)]
                if e.valid is False and mine and g.verdict != 'False':
                    msgs.append('reported valid (%s) although %s' % (g.verdict, '/'.join(mine[0])))
                if e.valid is True and g.verdict != 'True':
                    msgs.append('not reported valid although no rule is broken; failed: %s' % (failed(g.tests)[:4],))
            if props:
                for d in compare.diff(e.props, g.props):
                    if facet_prop(pid, ('properties',) + rel(d), fmt):
                        msgs.append('property: ' + str(d))
            if msgs:
                return '[%s] ' % fmt + '; '.join(msgs[:4])
        return None
    return guarded(judge)


# ---------------------------------------------------------------- generators

def perturbed(ch, f, kinds, only=None, onlyc=None, times=2):
    """Apply 0..times perturbations; text that describes them."""
    out = []
    for _ in range(ch.n(times + 1)):
        k = ch.pick(kinds)
        if k == 'field':
            r = gen.perturb_field(ch, f, only)
        elif k == 'struct':
            r = gen.perturb_struct(ch, f, onlyc)
        else:
            r = gen.perturb_length(ch, f, onlyc)
        if r:
            out.append(r)
    return '; '.join(out)


def heavy(data):
    return len(data) > 400000


def slow(data):
    """Declares a large number of components, channels or UUIDs, which takes seconds to analyse."""
    for tok, off in ((b'cdef', 4), (b'ulst', 4), (b'\xff\x51', 38)):
        p = data.find(tok)
        while p >= 0:
            if int.from_bytes(data[p + off:p + off + 2], 'big') > 1200:
                return True
            p = data.find(tok, p + 1)
    return False


def mk(data, fmt, label, nontrivial=True, **par):
    if heavy(data):
        return None
    return Case([('f.jp2', data)], dict(par, fmt=fmt), nontrivial, label)


def gen_conf(fmts, cfg=gen.Cfg, pm=True):
    def g(ch, i):
        fmt = fmts[i % len(fmts)]
        f = gen.gen_file(ch, fmt, cfg)
        return mk(f.ser(last=True), fmt, 'conforming', pm=bool(ch.p(50)) if pm else False, nullxml=bool(ch.p(20)))
    return g


def gen_pert(fmts, kinds, only=None, onlyc=None, times=2, cfg=gen.Cfg):
    def g(ch, i):
        fmt = fmts[i % len(fmts)]
        f = gen.gen_file(ch, fmt, cfg)
        what = perturbed(ch, f, kinds, only, onlyc, times)
        return mk(f.ser(last=True), fmt, ('perturbed ' + what) if what else 'conforming', bool(what), pm=bool(ch.p(50)))
    return g


def gen_mutated(fmts, cfg=gen.Cfg):
    def g(ch, i):
        fmt = fmts[i % len(fmts)]
        f = gen.gen_file(ch, fmt, cfg)
        return mk(gen.mutate_bytes(ch, f.ser(last=True)), fmt, 'mutated', pm=bool(ch.p(50)))
    return g


def sweep_phase(name, roots, want, judge, per_name=2, full=False, stride=1, pm=True):
    cases = tp.sweep(roots, want, per_name, full)[::stride]

    def g(ch, i):
        root, f, v = cases[i]
        return mk(tp.with_value(root, f, v), root.fmt, 'sweep %s:=%d' % (f.name, v), pm=pm)
    return Phase(name, len(cases), g, judge)


def list_phase(name, cases, judge):
    """cases: list of (data, fmt, label[, par])."""
    def g(ch, i):
        c = cases[i]
        return mk(c[0], c[1], c[2], **(c[3] if len(c) > 3 else {}))
    return Phase(name, len(cases), g, judge)


class Small(gen.Cfg):
    max_tiles = 2
    max_parts = 2
    data = 8
    big_csiz = 3


# ---------------------------------------------------------------- C05 box sequences

def top_items(fmt):
    cs = tp.lean_codestream(fmt)
    f = tp.wrap(fmt, cs)
    jp, ft, jh, jc = [k.ser() for k in f.kids]
    f2 = tp.wrap(fmt, cs, ipr=1)
    jh_ipr = f2.kids[2].ser()
    xml = Box(b'xml ', 'xml', [R('x', b'<a/>')]).ser()
    unk = Box(b'abcd', 'unknown', [R('x', b'12')]).ser()
    ipr = Box(b'jp2i', 'jp2i', [R('x', b'12')]).ser()
    return dict(S=jp, F=ft, H=jh, I=jh_ipr, C=jc, x=xml, u=unk, i=ipr)


def hdr_items(fmt):
    cs = tp.lean_codestream(fmt)
    k = tp.wrap(fmt, cs).kids[2].kids
    ih = k[0].ser()
    ihv = tp.wrap(fmt, cs, bpc=255).kids[2].kids[0].ser()
    ihu = tp.wrap(fmt, cs, unkc=1).kids[2].kids[0].ser()
    bp = Box(b'bpcc', 'bpcc', [F('b', 1, 7)]).ser()
    d = dict(I=ih, V=ihv, U=ihu, b=bp, c=tp.colr_enum().ser(), p=tp.pclr().ser(), m=tp.cmap().ser(), d=tp.cdef().ser(),
             r=Box(b'res ', 'res', [tp.resx(b'resc', 'resc')]).ser(), x=Box(b'xml ', 'xml', [R('x', b'<a/>')]).ser(),
             n=Box(b'cdef', 'cdef', [F('n', 2, 1), F('a', 2, 0), F('b', 2, 65535), F('c', 2, 0)]).ser())
    return d


def res_items():
    return dict(c=tp.resx(b'resc', 'resc').ser(), d=tp.resx(b'resd', 'resd').ser(), u=Box(b'abcd', 'u', []).ser())


def uinf_items():
    k = tp.uinf().kids
    return dict(l=k[0].ser(), u=k[1].ser(), x=Box(b'abcd', 'u', []).ser())


def seqs(alphabet, maxlen):
    for n in range(maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


def box_sequences(tier):
    """(builder, sequence, fmt) for all short sequences of boxes at each level."""
    out = []
    full = tier != 'quick'
    for fmt in BOXFMTS:
        ti = top_items(fmt)
        for s in seqs('SFHCxi', 4):
            out.append(('top', s, fmt))
        for s in seqs('SFHCIxi', 5 if full else 0):
            out.append(('top', s, fmt))
        # every insertion, deletion, exchange and duplication in the usual order
        base = 'SFxHuCi'
        for perm in itertools.permutations('SFHCx'):
            out.append(('top', perm, fmt))
        for n in range(len(base) + 1):
            for x in 'SFHICxui':
                out.append(('top', tuple(base[:n] + x + base[n:]), fmt))
                for m in range(n, len(base) + 1):
                    for y in 'SFHIC':
                        out.append(('top', tuple(base[:n] + x + base[n:m] + y + base[m:]), fmt))
        for s in seqs('IVUbcpmdrxn', 3):
            out.append(('hdr', s, fmt))
        hb = 'IbccpmdrxV'
        for n in range(1, 9):
            for x in 'IVUbcpmdrxn':
                for m in range(n, 9):
                    out.append(('hdr', tuple(hb[:n] + x + hb[n:m]), fmt))
                    out.append(('hdr', tuple('V' + hb[1:n] + x + hb[n:m]), fmt))
                    out.append(('hdr', tuple('U' + hb[1:n] + x + hb[n:m]), fmt))
        if full:
            for s in seqs('IVbcpmdr', 4):
                out.append(('hdr', s, fmt))
        for s in seqs('cdu', 5):
            out.append(('res', s, fmt))
        for s in seqs('lux', 5):
            out.append(('uinf', s, fmt))
    return out


def build_sequence(level, s, fmt, cache={}):
    if fmt not in cache:
        cache[fmt] = (top_items(fmt), hdr_items(fmt), res_items(), uinf_items())
    ti, hi, ri, ui = cache[fmt]
    if level == 'top':
        return b''.join(ti[x] for x in s)
    if level == 'hdr':
        return ti['S'] + ti['F'] + Box(b'jp2h', 'jp2h', [R('x', b''.join(hi[x] for x in s))]).ser() + ti['C']
    if level == 'res':
        r = Box(b'res ', 'res', [R('x', b''.join(ri[x] for x in s))]).ser()
        return ti['S'] + ti['F'] + Box(b'jp2h', 'jp2h', [R('x', hi['I'] + hi['c'] + r)]).ser() + ti['C']
    r = Box(b'uinf', 'uinf', [R('x', b''.join(ui[x] for x in s))]).ser()
    return ti['S'] + ti['F'] + ti['H'] + r + ti['C']


class C05(Check):
    id = 'C05'
    rule = 'distinct file contents: all sequences of box kinds up to a bounded length, all single and double insertions into ' \
           'the usual order, and random conforming files whose box structure was perturbed at least once'

    def phases(self, tier):
        j = judge_model('C05', props=False)
        sq = box_sequences(tier)

        def g(ch, i):
            level, s, fmt = sq[i]
            return mk(build_sequence(level, s, fmt), fmt, '%s %s' % (level, ''.join(s)))

        def g2(ch, i):
            fmt = BOXFMTS[i % 2]
            level = ch.pick(['top', 'hdr', 'hdr', 'res', 'uinf'])
            al = {'top': 'SFHCIxui', 'hdr': 'IVUbcpmdrxn', 'res': 'cdu', 'uinf': 'lux'}[level]
            s = [ch.pick(al) for _ in range(ch.n(14))]
            if level == 'top' and ch.p(60):
                s = list('SF') + s
            if level == 'hdr' and ch.p(60):
                s = [ch.pick('IVU')] + s
            return mk(build_sequence(level, s, fmt), fmt, '%s %s' % (level, ''.join(s)))
        k = SCALE[tier]
        boxes = lambda c: isinstance(c, (Box, gen.File)) and c.name in ('file', 'jp2h', 'res', 'uinf')
        return [Phase('sequences', len(sq), g, j), count_phase('box', j), Phase('random-sequences', 12000 * k, g2, j),
                Phase('structure', 5000 * k, gen_pert(BOXFMTS, ['struct'], onlyc=boxes, times=3, cfg=Small), j),
                Phase('fields', 2500 * k, gen_pert(BOXFMTS, ['field'], only=lambda n: n.startswith(('ihdr.', 'cdef.')), cfg=Small), j)]


# ---------------------------------------------------------------- C06

BOXFIELDS = ('jP.', 'ftyp.', 'ihdr.', 'bpcc.', 'colr.', 'icc.', 'pclr.', 'cmap.', 'cdef.', 'resc.', 'resd.', 'ulst.', 'url.')


def is_boxfield(n):
    return n.startswith(BOXFIELDS)


RULED = ('jP.', 'ftyp.', 'ihdr.', 'bpcc.', 'colr.', 'icc.size', 'icc.class', 'icc.tag', 'pclr.', 'cmap.', 'cdef.', 'resc.', 'resd.',
         'ulst.', 'url.')


def box_cuts(fmt):
    """Every box of the rich file with its contents cut to every length, extended, and replaced by other sizes."""
    out = []
    root = tp.boxed(fmt)
    for f in (root, tp.plain(fmt)):
        for c in [x for x in gen.containers(f) if isinstance(x, Box)]:
            if c.name in ('jp2c', 'jp2h'):
                continue
            body = Cont.ser(c)
            keep = c.kids
            for n in range(0, len(body)):
                if len(body) > 60 and n % 7 and n < len(body) - 24 and n > 24 and n not in (128, 129, 130, 131, 132, 133):
                    continue
                c.kids = [R('cut', body[:n])]
                out.append((f.ser(last=True), fmt, 'cut %s %d' % (c.name, n)))
            for n in range(1, 14):
                c.kids = keep + [R('ext', b'\1' * n)]
                out.append((f.ser(last=True), fmt, 'ext %s %d' % (c.name, n)))
            c.kids = keep
    return out


def with_header_box(fmt, box, n=1, **kw):
    f = tp.wrap(fmt, tp.lean_codestream(fmt), **kw)
    f.kids[2].kids.append(box)
    return f.ser(last=True)


def special_boxes(fmt):
    """Hand-picked values at and around limits that need consistent contents."""
    out = []
    add = lambda box, label: out.append((with_header_box(fmt, box), fmt, label))
    # palettes: entries x columns x depths with matching contents
    for ne in (0, 1, 2, 1023, 1024, 1025, 65535):
        for npc in (0, 1, 2, 254, 255):
            for b in (0, 7, 8, 15, 16, 31, 32, 37, 38, 127, 128, 135, 165, 166, 255):
                size = ((b & 127) + 8) // 8
                tot = ne * npc * size
                if tot > 6000 and not (b in (7, 37) and tot < 60000):
                    continue
                box = Box(b'pclr', 'pclr', [F('n', 2, ne), F('p', 1, npc)] + [F('B', 1, b)] * npc
                          + [R('C', bytes((i * 7 + 1) & 255 for i in range(tot)))])
                add(box, 'palette %d %d %d' % (ne, npc, b))
    # channel definitions: number of channels against contents
    for n in (0, 1, 2, 3, 255, 256, 257, 1000, 10000):
        for dlt in (-6, -1, 0, 1, 6):
            if n > 1000 and dlt:
                continue
            body = b''.join(bytes([0, i & 255, 255, 255, 0, 1]) for i in range(n))
            body = (body + b'\0' * 6)[:max(0, len(body) + dlt)]
            add(Box(b'cdef', 'cdef', [F('n', 2, n), R('x', body)]), 'cdef %d %+d' % (n, dlt))
    for t in list(range(0, 8)) + [65534, 65535, 256, 257]:
        for a in (0, 1, 2, 3, 65533, 65534, 65535):
            for t2, a2 in ((0, 1), (1, 0), (2, 0), (1, 65535), (2, 3)):
                add(Box(b'cdef', 'cdef', [F('n', 2, 2), F('c', 2, 0), F('t', 2, t), F('a', 2, a), F('c', 2, 1), F('t', 2, t2),
                                          F('a', 2, a2)]), 'cdef types %d %d %d %d' % (t, a, t2, a2))
    for v in (0, 1, 2):
        for m in (0, 1, 2, 255):
            for p in (0, 1, 2, 254, 255):
                add(Box(b'cmap', 'cmap', [F('c', 2, v), F('m', 1, m), F('p', 1, p)]), 'cmap %d %d %d' % (v, m, p))
    # many entries
    for n in (1, 2, 3, 200, 255, 256, 257, 5000):
        add(Box(b'cmap', 'cmap', [R('x', b'\0\0\1\0' * n)]), 'cmap entries %d' % n)
        f = tp.wrap(fmt, tp.lean_codestream(fmt, n, [7, 9] * (n // 2) + [7] * (n % 2)) if n < 5001 else None, bpc=255)
        out.append((f.ser(last=True), fmt, 'bpcc entries %d' % n))
    # colour boxes
    for meth in range(0, 8):
        for body in (b'', b'\0\0\0\x10', b'\0\0\0\x11', b'\0\0\0\x13', tp.icc().ser(), b'\0\1\0\1\0\1\x80', b'\0\x16\0\x0d\0\x09\0'):
            for pre in (b'\0\0', b'\1\0', b'\0\1', b'\xff\0', b'\0\xff', b'\x80\x80'):
                out.append((tp.wrap(fmt, tp.lean_codestream(fmt), [Box(b'colr', 'colr', [F('m', 1, meth), R('p', pre), R('x', body)])])
                            .ser(last=True), fmt, 'colr %d %d %s' % (meth, len(body), pre.hex())))
    for cp in range(0, 40):
        for tc in (0, 1, 3, 18, 19, cp):
            for mc in (0, 3, 14, 15, cp):
                out.append((tp.wrap(fmt, tp.lean_codestream(fmt), [Box(b'colr', 'colr', [
                    F('m', 1, 5), F('p', 1, 0), F('a', 1, 0), F('c', 2, cp), F('t', 2, tc), F('x', 2, mc), F('v', 1, (cp * 16) & 255)])])
                    .ser(last=True), fmt, 'colr param %d %d %d' % (cp, tc, mc)))
    # number of UUIDs
    for n in (0, 1, 2, 3, 255, 256, 300):
        for k in (n - 1, n, n + 1):
            if k >= 0:
                for extra in (0, 8):
                    b = Box(b'uinf', 'uinf', [Box(b'ulst', 'ulst', [F('n', 2, n), R('x', bytes(range(16)) * k + bytes(extra))]),
                                              tp.uinf().kids[1]])
                    out.append((tp.wrap(fmt, tp.lean_codestream(fmt), mid=[b]).ser(last=True), fmt, 'ulst %d %d %d' % (n, k, extra)))
    for loc in (b'', b'\0', b'a\0', b'a', b'a\0b\0', b'\xc3\xa9\0', b'\xff\xfe\0', b'\xe9\0', b'x' * 70000 + b'\0', b'a\0\0',
                b'\xf0\x9f\x98\x80\0', b'\xed\xa0\x80\0', b'\xc0\x80\0'):
        for ver, flag in ((0, 0), (1, 0), (0, 1), (0, 1 << 23), (255, 0xffffff)):
            b = Box(b'uinf', 'uinf', [tp.uinf().kids[0], Box(b'url ', 'url', [F('v', 1, ver), F('f', 3, flag), R('l', loc)])])
            out.append((tp.wrap(fmt, tp.lean_codestream(fmt), mid=[b]).ser(last=True), fmt, 'url %s %d %d' % (loc[:6].hex(), ver, flag)))
    # XML and UUID contents
    for x in XMLS:
        for b in (Box(b'xml ', 'xml', [R('x', x)]), Box(b'uuid', 'uuid', [R('i', gen.XMP_UUID), R('x', x)])):
            for nullxml in (False, True):
                out.append((tp.wrap(fmt, tp.lean_codestream(fmt), mid=[b]).ser(last=True), fmt, 'xml %s' % x[:10].hex(),
                            {'nullxml': nullxml}))
    for n in range(0, 20):
        out.append((tp.wrap(fmt, tp.lean_codestream(fmt), mid=[Box(b'uuid', 'uuid', [R('i', bytes(range(100, 100 + n)))])]).ser(last=True),
                    fmt, 'uuid length %d' % n))
    # file type
    b4 = gen.brand_of(fmt)
    for cl in ([], [b4], [b4] * 2, [b'jpx '], [b'jpx ', b4], [b4, b'jpx '], [b'jp2 ', b'jph '], [b'jph '], [b'jp2 '], [b'jp2 '] * 100,
               [b'abcd'] * 300 + [b4], [b4[:3] + b'\0'], [b4.upper()]):
        for br in (b4, b'jp2 ', b'jph ', b'jpx ', b'JP2 ', b'jp2\0'):
            for tail in (b'', b'j', b'jp2'):
                f = tp.wrap(fmt, tp.lean_codestream(fmt))
                f.kids[1] = Box(b'ftyp', 'ftyp', [R('b', br), F('v', 4, 0)] + [R('c', c) for c in cl] + [R('t', tail)])
                out.append((f.ser(last=True), fmt, 'ftyp %s %d %d' % (br.hex(), len(cl), len(tail))))
    return out


XMLS = [b'', b'<a/>', b'<a/>\0', b'<a/>\0\0', b'<a>', b'<a></b>', b'<?xml version="1.0"?><a/>', b'<?xml version="1.0" encoding="UTF-16"?><a/>',
        '<?xml version="1.0" encoding="UTF-16"?><a>\u00e9</a>'.encode('utf-16'), b'\xef\xbb\xbf<a/>', b'<a>\xe9</a>',
        '<?xml version="1.0" encoding="iso-8859-1"?><a>\u00e9</a>'.encode('latin-1'), b' <a/> ', b'\n<?xml version="1.0"?><a/>',
        b'<a/><b/>', b'<a b="1" b="2"/>', b'<a xmlns="urn:x"><b/></a>', b'<a:b/>', b'\0', b'\0<a/>', b'<a/>x', b'<a/>\0x', b'<a>\0</a>',
        b'<!DOCTYPE a [<!ENTITY e "x">]><a>&e;</a>', b'<a>&unknown;</a>', b'<a><![CDATA[<b>]]></a>', b'<!-- c --><a><!-- d --></a>',
        b'<a/>\n\0', b'<a>&#xD;&#9;</a>', b'<a>&#0;</a>', b'<a>' + b'x' * 70000 + b'</a>']


def icc_cases(fmt):
    """ICC profiles: tag tables, descriptions, sizes, classes."""
    out = []

    def add(icc, meth, label):
        box = Box(b'colr', 'colr', [F('m', 1, meth), F('p', 1, 0), F('a', 1, 0), R('icc', icc)])
        out.append((tp.wrap(fmt, tp.lean_codestream(fmt), [box]).ser(last=True), fmt, label))

    def prof(entries, cls=b'mntr', size=None, count=None, desc_at=None, trail=b''):
        k = tp.icc().kids
        raw = bytearray(b''.join(x.ser() for x in k[:27]))
        raw[12:16] = cls
        off = 132 + 12 * len(entries)
        table, blob = b'', b''
        for t, d in entries:
            table += t + (off + len(blob)).to_bytes(4, 'big') + len(d).to_bytes(4, 'big')
            blob += d
        p = bytes(raw) + (len(entries) if count is None else count).to_bytes(4, 'big') + table + blob + trail
        p = (len(p) if size is None else size).to_bytes(4, 'big') + p[4:]
        return p

    D = tp.icc_desc
    other = (b'wtpt', b'XYZ ' + bytes(16))
    for meth in (2, 3):
        for cls in (b'scnr', b'mntr', b'prtr', b'link', b'spac', b'abst', b'nmcl', b'SCNR', b'\0\0\0\0', b'mnt '):
            for tags in ([], [(b'A2B0', b'12345678')], [other, (b'A2B0', b'12345678')], [(b'A2B1', b'12345678')]):
                add(prof([(b'desc', D(b'x'))] + tags, cls), meth, 'icc class %s' % cls.hex())
        for n in (0, 1, 2, 30, 200):
            for pos in sorted({0, n // 2, n}):
                e = [other] * n
                e.insert(pos, (b'desc', D(b'name %d' % n)))
                add(prof(e), meth, 'icc tags %d %d' % (n, pos))
                e[pos] = (b'A2B0', b'lut ')
                add(prof(e), meth, 'icc a2b0 %d %d' % (n, pos))
        for nm in (b'', b'A', b'AB', b'ABC', b'ABCD', b'sRGB IEC61966-2.1', b'x' * 255, b'x' * 256, b'x' * 300, b'x' * 65536, b'caf\xc3\xa9', b'a\x01b'):
            add(prof([(b'desc', D(nm)), other]), meth, 'icc name %d' % len(nm))
        good = prof([(b'desc', D(b'x')), other])
        for d in (-1, 0, 1, -4, 4, 100, -100):
            add(prof([(b'desc', D(b'x')), other], size=len(good) + d), meth, 'icc size %+d' % d)
        for cnt in (0, 1, 2, 3, 1000):
            add(prof([(b'desc', D(b'x')), other], count=cnt), meth, 'icc count %d' % cnt)
        add(prof([(b'desc', D(b'first')), (b'desc', D(b'second'))]), meth, 'icc two descriptions')
        for n in range(0, len(good), 1):
            p = good[:n]
            if n >= 4:
                p = len(p).to_bytes(4, 'big') + p[4:]
            add(p, meth, 'icc cut %d' % n)
    return out


class C06(Check):
    id = 'C06'
    rule = 'distinct file contents in which a box field, box length or box content was set to a chosen value (sweeps over all ' \
           '1-byte values and over boundary and dictionary values of wider fields, cuts at every position) or perturbed at random'

    def phases(self, tier):
        j = judge_model('C06', props=False)
        k = SCALE[tier]
        roots = [tp.boxed('jp2'), tp.boxed('jph')]
        more = [tp.plain('jp2'), tp.plain('jph')]
        cases = []
        for fmt in BOXFMTS:
            cases += special_boxes(fmt) + icc_cases(fmt)
        cuts = box_cuts('jp2') + box_cuts('jph')
        onlyc = lambda c: isinstance(c, Box) and c.name not in ('jp2c',)
        return [sweep_phase('field-sweep', roots, lambda n: n.startswith(RULED), j, per_name=1 if tier == 'quick' else 3, full=tier != 'quick'),
                sweep_phase('field-sweep-plain', more, lambda n: n.startswith('ihdr.'), j),
                count_phase('box', j), list_phase('box-contents', cases, j), list_phase('box-lengths', cuts, j),
                Phase('conforming', 300 * k, gen_conf(BOXFMTS, Small), j),
                Phase('perturbed', 5000 * k, gen_pert(BOXFMTS, ['field', 'field', 'length'], only=is_boxfield, onlyc=onlyc, times=3, cfg=Small), j)]


# ---------------------------------------------------------------- C07

CSFIELDS = ('siz.', 'cod.', 'coc.', 'rgn.', 'qcd.', 'qcc.', 'poc.', 'crg.', 'com.', 'cap.', 'prf.', 'cpf.', 'plt.', 'plm.', 'sot.')


def is_csfield(n):
    return n.startswith(CSFIELDS)


def seg_cuts(fmt, csiz=3, tiles=False):
    """Every marker segment cut to every length (length field consistent or not) and extended."""
    out = []
    root = tp.bare(fmt, tp.rich_codestream(fmt, csiz))
    for c in [x for x in gen.containers(root) if isinstance(x, Seg)]:
        body = Cont.ser(c)
        keep = c.kids
        for n in range(0, len(body)):
            if n > 40 and n < len(body) - 12 and n % 5:
                continue
            c.kids = [R('cut', body[:n])]
            out.append((root.ser(last=True), fmt, 'cut %s %d' % (c.name, n), {'pm': True}))
        for n in (1, 2, 3, 4, 5, 6, 7, 9, 250):
            c.kids = keep + [R('ext', b'\1' * n)]
            out.append((root.ser(last=True), fmt, 'ext %s %d' % (c.name, n), {'pm': True}))
        c.kids = keep
        for ln in (0, 1, 2, 3, 4, 5, len(body), len(body) + 1, len(body) + 3, len(body) + 4, 65534, 65535):
            c.length = ln
            out.append((root.ser(last=True), fmt, 'length %s %d' % (c.name, ln), {'pm': True}))
        c.length = None
        if not tiles and csiz == 3:
            # bounds that stand in the documentation or in the code
            for ln in LENGTHS + [x + d for x in harvest.new_ints() for d in (-1, 0, 1) if 2 <= x + d <= 65535][:60]:
                c.length = ln
                out.append((root.ser(last=True), fmt, 'length %s %d' % (c.name, ln), {'pm': True}))
                c.length = None
                if ln - 2 > len(body) and (ln < 300 or (c.name, ln) in (('siz', 49190), ('siz', 49191), ('com', 65535))):
                    c.kids = keep + [R('ext', bytes((ln - 2 - len(body)) * [1]))]
                    out.append((root.ser(last=True), fmt, 'extended to %s %d' % (c.name, ln), {'pm': True}))
                    c.kids = keep
    return out


# ends of the documented ranges of segment lengths, and their neighbours
LENGTHS = sorted({x + d for x in (4, 6, 7, 9, 10, 12, 41, 43, 45, 47, 197, 199, 255, 257, 16384, 32768, 49190, 65533) for d in (-1, 0, 1, 2)})


def with_segments(fmt, segs, csiz=1, tile=False, depths=None, before=False):
    cs = tp.lean_codestream(fmt, csiz, depths)
    if tile:
        t = [x for x in cs.kids if isinstance(x, TP)][0]
        t.kids[0:0] = segs
    else:
        n = [i for i, x in enumerate(cs.kids) if isinstance(x, TP)][0]
        if before:
            n = 2
        cs.kids[n:n] = segs
    return tp.bare(fmt, cs).ser(last=True)


def special_segments(fmt):
    out = []

    def add(segs, label, csiz=1, tile=False, **par):
        out.append((with_segments(fmt, segs, csiz, tile), fmt, label, dict(par)))

    S = Seg
    # component indices around the width change, duplicates, order
    for csiz in (1, 2, 255, 256, 257, 258, 300, 16383, 16384):
        w = 1 if csiz < 257 else 2
        m = 255 if w == 1 else 65535
        for c in sorted({0, 1, 2, 254, 255, 256, 257, 16383, 16384, csiz - 1, csiz, csiz + 1, m}):
            if c > m:
                continue
            if csiz > 300 and (csiz != 16384 or c not in (16383, 16384)):
                continue
            for tile in (False, True):
                if csiz > 300 and tile:
                    continue
                add([S(b'\xff\x53', 'coc', [F('c', w, c), F('s', 1, 0), R('x', b'\1\4\4\0\1')])], 'ccoc %d/%d' % (c, csiz), csiz, tile)
                add([S(b'\xff\x5d', 'qcc', [F('c', w, c), F('s', 1, 0x40), F('x', 1, 0x48)])], 'cqcc %d/%d' % (c, csiz), csiz, tile)
                add([S(b'\xff\x5e', 'rgn', [F('c', w, c), F('s', 1, 0), F('x', 1, 7)])], 'crgn %d/%d' % (c, csiz), csiz, tile)
                add([S(b'\xff\x5f', 'poc', [F('r', 1, 0), F('c', w, c), F('l', 2, 1), F('e', 1, 3), F('c', w, min(m, c + 1)), F('p', 1, 0)])],
                    'cpoc %d/%d' % (c, csiz), csiz, tile)
    for n in range(1, 6):
        for combo in itertools.product((0, 1, 2), repeat=min(n, 4)):
            for mk_ in ('coc', 'qcc'):
                segs = []
                for c in combo:
                    if mk_ == 'coc':
                        segs.append(S(b'\xff\x53', 'coc', [F('c', 1, c), F('s', 1, 0), R('x', b'\1\4\4\0\1')]))
                    else:
                        segs.append(S(b'\xff\x5d', 'qcc', [F('c', 1, c), F('s', 1, 0x40), F('x', 1, 0x48)]))
                add(segs, '%s order %s' % (mk_, combo), 3, bool(n & 1))
        if n > 4:
            break
    # levels against segment length, precincts
    for lev in list(range(0, 40)) + [255]:
        for prec in (0, 1):
            for d in (-2, -1, 0, 1):
                np = (lev + 1) * prec + d
                if np < 0:
                    continue
                body = bytes([0x55] * np)
                add([S(b'\xff\x53', 'coc', [F('c', 1, 0), F('s', 1, prec), F('l', 1, lev), R('x', b'\4\4\0\1' + body)])],
                    'coc levels %d %d %+d' % (lev, prec, d))
                cs = tp.lean_codestream(fmt)
                for i, x in enumerate(cs.kids):
                    if x.name == 'cod':
                        cs.kids[i] = S(b'\xff\x52', 'cod', [F('s', 1, prec), R('y', b'\2\0\1\0'), F('l', 1, lev), R('x', b'\4\4\0\1' + body)])
                out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'cod levels %d %d %+d' % (lev, prec, d), {}))
    for a in range(0, 256):
        for lev in (0, 1, 2):
            pr = [0x11] * 3
            pr[lev] = a
            add([S(b'\xff\x53', 'coc', [F('c', 1, 0), F('s', 1, 1), F('l', 1, 2), R('x', b'\4\4\0\1' + bytes(pr))])], 'precinct %d %d' % (lev, a))
    for a in range(0, 12):
        for b in range(0, 12):
            add([S(b'\xff\x53', 'coc', [F('c', 1, 0), F('s', 1, 0), R('x', bytes([0, a, b, 0, 0]))])], 'codeblock %d %d' % (a, b))
    # quantisation: style x number of entries
    for st in (0, 1, 2, 3, 31):
        for lev in list(range(0, 34)):
            w = 1 if st == 0 else 2
            n = 1 if st == 1 else 3 * lev + 1
            for d in ((-1, 0, 1, 2) if lev < 4 or lev > 30 else (0,)):
                body = bytes((i * 37 + 11) & 255 for i in range(max(0, n * w + d)))
                add([S(b'\xff\x5d', 'qcc', [F('c', 1, 0), F('s', 1, st | (lev & 7) << 5), R('x', body)])], 'qcc %d %d %+d' % (st, lev, d))
                cs = tp.lean_codestream(fmt)
                for i, x in enumerate(cs.kids):
                    if x.name == 'qcd':
                        cs.kids[i] = S(b'\xff\x5c', 'qcd', [F('s', 1, st | (lev & 7) << 5), R('x', body)])
                out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'qcd %d %d %+d' % (st, lev, d), {}))
    # progression order changes: number, component ranges
    for csiz in (1, 257):
        w = 1 if csiz < 257 else 2
        for n in (0, 1, 2, 3, 10, 100, 1000):
            k = []
            for i in range(n):
                k += [F('r', 1, i % 33), F('c', w, i % 200), F('l', 2, i + 1), F('e', 1, i % 33 + 1), F('c', w, i % 200 + 1), F('p', 1, i % 5)]
            add([S(b'\xff\x5f', 'poc', k)], 'poc entries %d' % n, csiz)
        for cs in (0, 1, 100, 254, 255) + ((256, 16383, 16384, 65535) if w == 2 else ()):
            for ce in (0, 1, 2, 100, 101, 254, 255) + ((256, 257, 16383, 16384, 16385, 65535) if w == 2 else ()):
                add([S(b'\xff\x5f', 'poc', [F('r', 1, 0), F('c', w, cs), F('l', 2, 1), F('e', 1, 3), F('c', w, ce), F('p', 1, 0)])],
                    'poc components %d %d' % (cs, ce), csiz)
        for rs in (0, 1, 5, 31, 32, 33, 34, 255):
            for re in (0, 1, 2, 5, 6, 31, 32, 33, 34, 255):
                add([S(b'\xff\x5f', 'poc', [F('r', 1, rs), F('c', w, 0), F('l', 2, 1), F('e', 1, re), F('c', w, 1), F('p', 1, 0)])],
                    'poc resolutions %d %d' % (rs, re), csiz)
    # component registration
    for csiz in (1, 2, 3, 256, 257):
        for n in (csiz - 1, csiz, csiz + 1):
            add([S(b'\xff\x63', 'crg', [R('x', bytes((i * 11) & 255 for i in range(4 * n)))])], 'crg %d/%d' % (n, csiz), csiz)
    # comments
    for r in (0, 1, 2, 256, 65535):
        for t in (b'', b'a', b'ab', b'\0', b'\xa4\xe9', b'a\0b', bytes(range(32, 256)), b'x' * 65531, b'caf\xc3\xa9', b'\x80\x81'):
            add([S(b'\xff\x64', 'com', [F('r', 2, r), R('t', t)])], 'com %d %d' % (r, len(t)))
    # capabilities: every part alone and in pairs
    for p in range(1, 33):
        for q in (None, 1, 15, 32):
            parts = sorted({p} | ({q} if q else set()))
            pcap = sum(1 << (32 - x) for x in parts)
            for d in (-1, 0, 1):
                k = [F('p', 4, pcap)] + [F('c', 2, 0x8000 + x) for x in parts] + [F('c', 2, 1)]
                k = k[:len(parts) + 1 + d]
                add([S(b'\xff\x50', 'cap', k)], 'cap %s %+d' % (parts, d))
    for bit in range(0, 16):
        for v in (1 << bit, 0xffff ^ (1 << bit), (1 << bit) - 1):
            add([S(b'\xff\x50', 'cap', [F('p', 4, 1 << 17), F('c', 2, v)])], 'ccap15 %d' % v)
    for v in range(0, 64):
        add([S(b'\xff\x50', 'cap', [F('p', 4, 1 << 17), F('c', 2, v)])], 'ccap15 %d' % v)
        add([S(b'\xff\x50', 'cap', [F('p', 4, 1 << 17 | 1 << 24), F('c', 2, 0xffff), F('c', 2, 0x8000 | v)])], 'ccap15 second %d' % v)
    for v in range(0, 65536, 257):
        add([S(b'\xff\x50', 'cap', [F('p', 4, 1 << 17), F('c', 2, v)])], 'ccap15 %d' % v)
    # profiles
    for vals in ([], [0], [1], [0, 0], [1, 0], [0, 1], [65535], [65535] * 2, [1, 2, 3], [65535] * 40, [0] * 40, [4095], [4094], [1] * 1000):
        for cd, nm in ((b'\xff\x56', 'prf'), (b'\xff\x59', 'cpf')):
            add([S(cd, nm, [F('p', 2, v) for v in vals])], '%s %d' % (nm, len(vals)))
            add([S(cd, nm, [F('p', 2, v) for v in vals] + [R('x', b'\1')])], '%s odd %d' % (nm, len(vals)))
    return out


def siz_cases(fmt):
    """Image-size segments: number of components, tiles, capability values."""
    out = []
    for n in (0, 1, 2, 3, 4, 254, 255, 256, 257, 258, 512, 1000, 16383, 16384, 16385):
        if n > 16384:
            depths = [7] * 16384
        else:
            depths = [(i * 5) % 38 | (i % 3 == 1) << 7 for i in range(n)]
        cs = tp.lean_codestream(fmt, max(1, n), depths or [7])
        siz = cs.kids[1]
        for x in siz.kids:
            if x.name == 'siz.csiz':
                x.val = n
        if n == 0:
            siz.kids = siz.kids[:-3]
        out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'csiz %d' % n, {}))
        if n > 1000:
            continue
        # one component too few for the length
        siz.kids = siz.kids[:-3]
        out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'csiz %d short' % n, {}))
    for r in list(range(0, 300)) + [i << 8 for i in range(256)] + [0x4000 | i for i in range(0, 4096, 61)] + [0xffff, 0x7fff, 0xbfff] + [
            (p << 8) | (s << 4) | m for p in range(0, 10) for s in (0, 1, 9, 10, 15) for m in (0, 1, 11, 12, 15)]:
        out.append((tp.bare(fmt, tp.lean_codestream(fmt, rsiz=r)).ser(last=True), fmt, 'rsiz %d' % r, {}))
    names = ('xsiz', 'ysiz', 'xOsiz', 'yOsiz', 'xTsiz', 'yTsiz', 'xTOsiz', 'yTOsiz')
    m = 2 ** 32 - 1
    vs = (0, 1, 2, 15, 16, 17, 31, 32, 33, 255, 256, 2 ** 31 - 1, 2 ** 31, m - 1, m)
    base = dict(xsiz=32, ysiz=32, xOsiz=0, yOsiz=0, xTsiz=32, yTsiz=32, xTOsiz=0, yTOsiz=0)
    for a, b in itertools.combinations(names, 2):
        for va in vs:
            for vb in vs:
                g = dict(base)
                g[a], g[b] = va, vb
                cs = tp.lean_codestream(fmt)
                for x in cs.kids[1].kids:
                    if x.name[4:] in g:
                        x.val = g[x.name[4:]]
                out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'geometry %s=%d %s=%d' % (a, va, b, vb), {}))
    return out


def main_sequences(fmt, maxlen):
    """All short sequences of main-header segments after the image-size segment."""
    cs = tp.rich_codestream(fmt, 3)
    segs = {}
    for x in cs.kids:
        if isinstance(x, Seg):
            segs.setdefault(x.name, x)
    lean = tp.lean_codestream(fmt, 3)
    tail = [x for x in lean.kids if isinstance(x, TP)]
    siz = lean.kids[1]
    out = []
    al = ('cod', 'qcd', 'coc', 'qcc', 'cap', 'com', 'poc')
    for s in seqs(al, maxlen):
        for withsiz in (True, False):
            if not withsiz and len(s) > 2:
                continue
            c = Cont('x', [Mark(b'\xff\x4f', 'soc')] + ([siz] if withsiz else []) + [segs[x] for x in s] + tail + [Mark(b'\xff\xd9', 'eoc')])
            out.append((c.ser(), fmt, 'segments %s' % ' '.join(s), {}))
    unknown = [Seg(bytes([0xff, b]), 'unk', [R('x', b'\1\2\3')]) for b in range(0x01, 0xff) if b not in (0xff,)]
    for u in unknown:
        c = Cont('x', [Mark(b'\xff\x4f', 'soc'), siz, segs['cod'], u, segs['qcd']] + tail + [Mark(b'\xff\xd9', 'eoc')])
        out.append((c.ser(), fmt, 'marker %s' % u.code.hex(), {}))
        c = Cont('x', [Mark(b'\xff\x4f', 'soc'), u, siz, segs['cod'], segs['qcd']] + tail + [Mark(b'\xff\xd9', 'eoc')])
        out.append((c.ser(), fmt, 'marker before siz %s' % u.code.hex(), {}))
    return out


class C07(Check):
    id = 'C07'
    rule = 'distinct codestreams in which a main-header marker segment, its length, its fields or the sequence of segments was ' \
           'set to chosen values (sweeps over all 1-byte values, boundary values of wider fields, cuts at every position, all short ' \
           'segment sequences) or perturbed at random'

    def phases(self, tier):
        j = judge_model('C07', props=False)
        k = SCALE[tier]
        q = tier == 'quick'
        roots = [tp.bare('j2c', tp.rich_codestream('j2c')), tp.bare('jhc', tp.rich_codestream('jhc'))]
        big = [tp.bare('j2c', tp.rich_codestream('j2c', 300)), tp.bare('jhc', tp.rich_codestream('jhc', 257, style=0))]
        want = lambda n: is_csfield(n) and not n.startswith('sot.')
        sp = special_segments('j2c') + special_segments('jhc')
        si = siz_cases('j2c') + siz_cases('jhc')
        cuts = seg_cuts('j2c') + seg_cuts('jhc') + seg_cuts('j2c', 257)
        sq = main_sequences('j2c', 3 if q else 5) + main_sequences('jhc', 3 if q else 5)
        onlyc = lambda c: isinstance(c, (Seg, gen.CS))
        return [sweep_phase('field-sweep', roots, want, j, per_name=1 if q else 3, full=not q),
                sweep_phase('field-sweep-wide', big, lambda n: n in ('coc.ccoc', 'qcc.cqcc', 'rgn.crgn', 'poc.cspoc', 'poc.cepoc', 'siz.csiz'),
                            j, per_name=2),
                count_phase('seg', j), list_phase('segments', sp, j), list_phase('image-size', si, j),
                list_phase('cuts', cuts, j),
                list_phase('segment-sequences', sq, j),
                Phase('perturbed', 2500 * k, gen_pert(FMTS, ['field', 'field', 'struct', 'length'], only=want, onlyc=onlyc, times=3, cfg=Small), j)]


# ---------------------------------------------------------------- C08

def tp_list(fmt, ntiles, parts, last0=False, csiz=1, data=b'\x11\x22\x33'):
    """Codestream with the given (isot, tpsot, tnsot) sequence."""
    cs = tp.lean_codestream(fmt, csiz, ntiles=ntiles)
    head = [x for x in cs.kids if not isinstance(x, TP)][:-1]
    tps = []
    for n, (t, p, tn) in enumerate(parts):
        x = TP(F('sot.isot', 2, t), F('sot.tpsot', 1, p), F('sot.tnsot', 1, tn), [Mark(b'\xff\x93', 'sod'), R('data', data)])
        if last0 and n == len(parts) - 1:
            x.psot = 0
        tps.append(x)
    cs.kids = head + tps + [Mark(b'\xff\xd9', 'eoc')]
    return cs


def arrangements(tier):
    """Deterministic tile-part arrangements."""
    out = []
    full = tier != 'quick'
    for fmt in CSFMTS:
        for nt in ((1, 1), (2, 1), (1, 3)):
            n = nt[0] * nt[1]
            opts = [(t, tn) for t in range(n + 1) for tn in (0, 1, 2, 3)]
            for ln in range(0, 3 if not full else 4):
                for s in itertools.product(opts, repeat=ln):
                    cnt = {}
                    parts = []
                    for t, tn in s:
                        parts.append((t, cnt.get(t, 0), tn))
                        cnt[t] = cnt.get(t, 0) + 1
                    out.append((fmt, nt, tuple(parts), False))
        for nt in ((1, 1), (2, 2), (16, 16), (17, 16), (300, 1), (20, 30), (256, 1), (255, 1), (257, 1)):
            n = nt[0] * nt[1]
            allp = [(t, 0, 1) for t in range(n)]
            for var in (allp, allp[:-1], allp[1:], allp + [(n, 0, 1)], allp + [(0, 1, 1)], allp[::-1], allp[:n // 2] + allp[n // 2 + 1:],
                        [(t, 0, 0) for t in range(n)], allp[:-1] + [(65534, 0, 1)], allp[:-1] + [(65535, 0, 1)], allp[:-1] + [(n, 0, 1)],
                        [(t, 0, 2 if t == n - 1 else 1) for t in range(n)], [(t, 0, 0 if t % 2 else 1) for t in range(n)]):
                for last0 in (False, True):
                    if n > 60 and last0 and not full:
                        continue
                    out.append((fmt, nt, tuple(var), last0))
        for k in (1, 2, 3, 100, 253, 254, 255):
            for tn in sorted({0, 1, k - 1, k, min(255, k + 1), 255}):
                if 0 <= tn:
                    out.append((fmt, (1, 1), tuple((0, i, tn) for i in range(k)), False))
                    out.append((fmt, (1, 1), tuple((0, i, tn if i == k - 1 else 0) for i in range(k)), True))
    return out


def tile_cases(fmt):
    out = []
    # psot variants
    for ntiles in ((1, 1), (2, 1)):
        for which in range(ntiles[0]):
            for d in list(range(-14, 15)) + [None, 1000, 2 ** 31, 2 ** 32 - 1]:
                cs = tp.lean_codestream(fmt, ntiles=ntiles)
                t = [x for x in cs.kids if isinstance(x, TP)][which]
                ln = len(t.ser())
                t.psot = 0 if d is None else max(0, min(2 ** 32 - 1, ln + d))
                out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'psot %d/%s %s' % (which, ntiles, d), {}))
            for ps in range(0, 20):
                cs = tp.lean_codestream(fmt, ntiles=ntiles)
                t = [x for x in cs.kids if isinstance(x, TP)][which]
                t.psot = ps
                out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'psot %d/%s =%d' % (which, ntiles, ps), {}))
    # what follows the tile-parts
    for tail in (b'', b'\xff', b'\xff\xd9', b'\xff\xd9\0', b'\xff\xd9\xff\xd9', b'\xff\xd9\xff', b'\0\0\xff\xd9', b'\xff\x90\xff\xd9', b'\xd9',
                 b'\xff\xd8', b'\xff\xd9' + bytes(100), b'\xff\x93\xff\xd9', b'\xff\x4f\xff\xd9'):
        for p0 in (None, 0):
            cs = tp.lean_codestream(fmt, ntiles=(2, 1))
            cs.kids.pop()
            cs.kids[-1].psot = p0
            out.append((tp.bare(fmt, cs).ser(last=True) + tail, fmt, 'tail %s %s' % (tail[:4].hex(), p0), {}))
    # headers: every segment in first / later tile-parts, once or twice
    rich = tp.rich_codestream(fmt, 3)
    pool = {}
    for c in gen.containers(rich):
        if isinstance(c, Seg):
            pool.setdefault(c.name, c)
    for nm in sorted(pool):
        for part in (0, 1, 2):
            for times in (1, 2, 3):
                cs = tp.lean_codestream(fmt, 3, ntiles=(2, 1), parts=3)
                t = [x for x in cs.kids if isinstance(x, TP)][3 + part]
                t.kids[0:0] = [pool[nm]] * times
                out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'header %s in part %d x%d' % (nm, part, times), {'pm': True}))
    # start-of-data missing, segments with odd codes in tile headers
    for part in range(4):
        cs = tp.lean_codestream(fmt, ntiles=(2, 1), parts=2)
        t = [x for x in cs.kids if isinstance(x, TP)][part]
        t.kids = t.kids[1:]
        out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'no sod %d' % part, {}))
    for b in range(1, 256):
        cs = tp.lean_codestream(fmt, ntiles=(2, 1))
        t = [x for x in cs.kids if isinstance(x, TP)][0]
        t.kids[0:0] = [Seg(bytes([0xff, b]), 'u', [R('x', b'\1\2\3\4')])]
        out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'marker in header %02x' % b, {'pm': True}))
    # several segments: order and duplicates of components
    def coc(c):
        return Seg(b'\xff\x53', 'coc', [F('c', 1, c), F('s', 1, 0), R('x', b'\1\4\4\0\1')])

    def qcc(c):
        return Seg(b'\xff\x5d', 'qcc', [F('c', 1, c), F('s', 1, 0x40), F('x', 1, 0x48)])
    for mk_ in (coc, qcc):
        for combo in itertools.product((0, 1, 2), repeat=3):
            for split in (False, True):
                cs = tp.lean_codestream(fmt, 3, ntiles=(2, 1))
                ts = [x for x in cs.kids if isinstance(x, TP)]
                ts[0].kids[0:0] = [mk_(c) for c in combo[:2 if split else 3]]
                if split:
                    ts[1].kids[0:0] = [mk_(combo[2])]
                out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'per component %s %s' % (mk_.__name__, combo), {}))
                cs = tp.lean_codestream(fmt, 3, ntiles=(2, 1))
                ts = [x for x in cs.kids if isinstance(x, TP)]
                cs.kids[2:2] = [mk_(combo[0])]
                ts[0].kids[0:0] = [mk_(combo[1])]
                ts[1].kids[0:0] = [mk_(combo[2])]
                out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'main and tile %s %s' % (mk_.__name__, combo), {}))
    # number of tiles from the geometry with matching tile-parts
    for nt in list(range(1, 14)) + [100, 1000]:
        for dx in (-15, -1, 0, 1, 15):
            cs = tp.lean_codestream(fmt, ntiles=(nt, 1))
            for x in cs.kids[1].kids:
                if x.name == 'siz.xsiz':
                    x.val += dx
            out.append((tp.bare(fmt, cs).ser(last=True), fmt, 'tiles %d %+d' % (nt, dx), {}))
    return out


class C08(Check):
    id = 'C08'
    rule = 'distinct codestreams with a chosen tile-part arrangement (all short sequences of tile indices and declared counts, large ' \
           'grids, wrong lengths, wrong order, headers with each segment at each position) or random perturbed tile-parts'

    def phases(self, tier):
        j = judge_model('C08', props=False)
        q = tier == 'quick'
        k = SCALE[tier]
        ar = arrangements(tier)

        def g(ch, i):
            fmt, nt, parts, last0 = ar[i]
            return mk(tp.bare(fmt, tp_list(fmt, nt, parts, last0)).ser(last=True), fmt, 'arrangement %s %s' % (nt, parts[:6]))

        def g2(ch, i):
            fmt = CSFMTS[i % 2]
            nt = ch.pick([(1, 1), (2, 1), (2, 2), (3, 1), (1, 4), (3, 3)])
            n = nt[0] * nt[1]
            parts = []
            cnt = {}
            tot = {t: 1 + ch.n(3) for t in range(n)}
            order = [t for t in range(n) for _ in range(tot[t])]
            if ch.p(50):
                order = ch.shuffle(order)
            for t in order:
                parts.append([t, cnt.get(t, 0), tot[t] if ch.p(60) else 0])
                cnt[t] = cnt.get(t, 0) + 1
            what = []
            for _ in range(ch.n(3)):
                if not parts:
                    break
                a = ch.n(len(parts))
                op = ch.n(6)
                if op == 0:
                    parts.pop(a)
                elif op == 1:
                    parts.insert(ch.n(len(parts) + 1), list(parts[a]))
                elif op == 2:
                    parts[a][0] = ch.int(0, 65535)
                elif op == 3:
                    parts[a][1] = ch.int(0, 255)
                elif op == 4:
                    parts[a][2] = ch.int(0, 255)
                else:
                    b = ch.n(len(parts))
                    parts[a], parts[b] = parts[b], parts[a]
                what.append(op)
            cs = tp_list(fmt, nt, parts, ch.p(20), data=gen.cs_data(ch, ch.n(20)))
            tps = [x for x in cs.kids if isinstance(x, TP)]
            if tps and ch.p(30):
                t = ch.pick(tps)
                ln = len(t.ser())
                t.psot = max(0, ch.pick([ln - 1, ln + 1, 0, ln - 2, ln + 2, 13, 14, ch.n(2 * ln), ln + len(tps[-1].ser())]))
                what.append('psot')
            f = tp.bare(fmt, cs)
            if ch.p(30):
                f = tp.wrap({'j2c': 'jp2', 'jhc': 'jph'}[fmt], cs)
            return mk(f.ser(last=True), f.fmt, 'tiles %s' % what, bool(what))
        tc = tile_cases('j2c') + tile_cases('jhc')
        roots = [tp.bare('j2c', tp.lean_codestream('j2c', ntiles=(2, 1), parts=2)), tp.bare('jhc', tp.rich_codestream('jhc'))]
        onlyc = lambda c: isinstance(c, (TP, gen.CS)) or (isinstance(c, Seg) and c.name in ('plt', 'ppt', 'cod', 'qcd', 'coc', 'qcc', 'rgn'))
        mt = many_tiles(tier)
        return [Phase('many-tiles', len(mt), lambda ch, i: many_case(mt[i]), j), count_phase('seg', j), Phase('arrangements', len(ar), g, j), Phase('random-arrangements', 6000 * k, g2, j), list_phase('tile-parts', tc, j),
                sweep_phase('sot-sweep', roots, lambda n: n.startswith('sot.'), j, per_name=2, full=not q),
                sweep_phase('geometry-sweep', roots[:1], lambda n: n.startswith('siz.x') or n.startswith('siz.y'), j),
                Phase('perturbed', 2000 * k, gen_pert(FMTS, ['struct', 'length', 'field'], only=is_csfield, onlyc=onlyc, times=3, cfg=Small), j)]


# ---------------------------------------------------------------- large numbers of repeated items

COUNTS = [10, 33, 64, 65, 100, 101, 128, 129, 200, 256, 257, 300, 512, 513, 1000, 1001, 1024, 1025, 2049, 4097]
MORE = [8193, 10001, 16384, 32769, 65535]


def box_counts():
    """(kind, number, last item is wrong, format) of header and top-level boxes with many items."""
    out = []
    for m, kind in enumerate(('cdef', 'cmap', 'bpcc', 'ulst', 'cl', 'colr', 'colr+', 'xml', 'uuid', 'url', 'uinf', 'jp2c')):
        for n_, n in enumerate(COUNTS + MORE):
            if (kind in ('colr', 'colr+', 'xml', 'uuid', 'uinf') and n > 2049) or (kind == 'jp2c' and n > 128) or (kind == 'bpcc' and n > 16384):
                continue
            for bad in (0, 1):
                out.append((kind, n, bad, BOXFMTS[(n_ + m + bad) % 2]))
    return out


def box_count_case(item):
    kind, n, bad, fmt = item
    hdr, mid, post = [], [], []
    cs = tp.lean_codestream(fmt)
    f = None
    if kind == 'cdef':
        body = b''.join(bytes([i >> 8, i & 255, 0, 0, 0, 1 + i % 200]) for i in range(n))
        hdr = [Box(b'cdef', 'cdef', [F('n', 2, n), R('x', body[:-6] + (b'\0\1\0\7\1\2' if bad else b'\0\5\0\0\1\7'))])]
    elif kind == 'cmap':
        body = b''.join(bytes([0, i & 255, 1, i % 251]) for i in range(n - 1))
        hdr = [tp.pclr(), Box(b'cmap', 'cmap', [R('x', body + (b'\0\1\2\1' if bad else b'\0\2\1\xfe'))])]
    elif kind == 'bpcc':
        d = [7, 9] * (n // 2) + [7] * (n % 2)
        d[-1] = 11
        f = tp.wrap(fmt, tp.lean_codestream(fmt, n, d), bpc=255)
        if bad:
            for b in gen.containers(f):
                if isinstance(b, Box) and b.name == 'bpcc':
                    b.kids[-1].val = 38
    elif kind == 'ulst':
        ids = b''.join(i.to_bytes(16, 'big') for i in range(n - 1)) + b'\xfe' * 16
        mid = [Box(b'uinf', 'uinf', [Box(b'ulst', 'ulst', [F('n', 2, n), R('x', ids[:-1] if bad else ids)]), tp.uinf().kids[1]])]
    elif kind == 'cl':
        f = tp.wrap(fmt, cs)
        cl = [b'%04d' % (i % 9999) for i in range(n - 1)] + [b'jpxb' if bad else gen.brand_of(fmt)]
        f.kids[1] = Box(b'ftyp', 'ftyp', [R('b', gen.brand_of(fmt)), F('v', 4, 0), R('c', b''.join(cl))])
    elif kind in ('colr', 'colr+'):
        hdr = [tp.colr_enum(16 + i % 3) for i in range(n - 1)]
        if kind == 'colr':
            hdr += [Box(b'colr', 'colr', [F('m', 1, 9 if bad else 1), F('p', 1, 0), F('a', 1, 0), F('e', 4, 17)])]
        else:
            hdr += [tp.cdef()] + ([tp.colr_enum(18)] if bad else [])
    elif kind == 'xml':
        mid = [Box(b'xml ', 'xml', [R('x', b'<a n="%d"/>' % i)]) for i in range(n - 1)] + [Box(b'xml ', 'xml', [R('x', b'<a>' if bad else b'<last/>')])]
    elif kind == 'uuid':
        mid = [Box(b'uuid', 'uuid', [R('x', i.to_bytes(16, 'big') + b'x')]) for i in range(n - 1)] \
            + [Box(b'uuid', 'uuid', [R('x', b'\xfe' * 16 + (b'' if bad else b'x'))])]
    elif kind == 'url':
        loc = b'http://' + b'x' * n + b'.org' + (b'' if bad else b'\0')
        mid = [Box(b'uinf', 'uinf', [tp.uinf().kids[0], Box(b'url ', 'url', [F('v', 1, 0), F('f', 3, 0), R('l', loc)])])]
    elif kind == 'uinf':
        mid = [tp.uinf() for i in range(n)]
        if bad:
            mid[-1].kids.pop()
    elif kind == 'jp2c':
        post = [Box(b'jp2c', 'jp2c', [tp.lean_codestream(fmt)]) for i in range(n - 1)]
        if bad:
            post[-1].kids[0].kids.pop()
    if f is None:
        f = tp.wrap(fmt, cs, mid=mid, post=post) if kind not in ('colr', 'colr+') else tp.wrap(fmt, cs, hdr, mid=mid, post=post)
        if kind not in ('colr', 'colr+'):
            f.kids[2].kids += hdr
    return f.ser(last=True), fmt, 'count %s %d %d' % (kind, n, bad), {'pm': True}


def seg_counts():
    out = []
    for m, kind in enumerate(('coc', 'qcc', 'rgn', 'com', 'plt', 'plm', 'ppm', 'ppt', 'tlm', 'poc', 'crg', 'prf', 'cpf', 'parts', 'cocT', 'qccT', 'comT', 'rgnT', 'siz', 'comlen')):
        for n_, n in enumerate(COUNTS + MORE):
            if (kind in ('coc', 'qcc', 'rgn', 'cocT', 'qccT', 'rgnT', 'plt', 'plm', 'ppm', 'ppt', 'tlm', 'com', 'comT') and n > 2049) or (kind == 'poc' and n > 7000) \
                    or (kind in ('crg', 'siz') and n > 16384) or (kind in ('prf', 'cpf') and n > 32766) or (kind == 'parts' and n > 256) or (kind == 'comlen' and n > 65531):
                continue
            for bad in (0, 1):
                out.append((kind, n, bad, CSFMTS[(n_ + m + bad) % 2]))
    return out


def seg_count_case(item):
    kind, n, bad, fmt = item
    k = kind.rstrip('T')
    tile = kind.endswith('T') or kind in ('plt', 'ppt')
    S = Seg
    csiz = 1
    if k in ('coc', 'qcc', 'rgn', 'crg', 'siz'):
        csiz = n
    w = 1 if csiz < 257 else 2
    segs = []
    if k in ('coc', 'qcc', 'rgn'):
        for i in range(n):
            c = 0 if bad and i == n - 1 and k != 'rgn' else i
            if k == 'coc':
                segs.append(S(b'\xff\x53', 'coc', [F('c', w, c), F('s', 1, 0), R('x', bytes([i % 33, i % 5, i % 4, 0, 1]))]))
            elif k == 'qcc':
                segs.append(S(b'\xff\x5d', 'qcc', [F('c', w, c), F('s', 1, 0x40), F('x', 1, i & 0xf8)]))
            else:
                segs.append(S(b'\xff\x5e', 'rgn', [F('c', w, c), F('s', 1, 1 if bad and i == n - 1 else 0), F('x', 1, i % 38)]))
    elif k == 'com':
        for i in range(n):
            segs.append(S(b'\xff\x64', 'com', [F('r', 2, 2 if bad and i == n - 1 else 1), R('t', b'comment %d' % i)]))
    elif k == 'comlen':
        segs.append(S(b'\xff\x64', 'com', [F('r', 2, 1), R('t', b'ab ' * (n // 3) + (b'\1' if bad else b'z'))]))
    elif k in ('plt', 'plm'):
        for i in range(n):
            if k == 'plt':
                segs.append(S(b'\xff\x58', 'plt', [F('z', 1, i & 255), R('x', bytes([i & 127, 0x81, i & 127]))]))
            else:
                segs.append(S(b'\xff\x57', 'plm', [F('z', 1, i & 255), F('n', 1, 3), R('x', bytes([i & 127, 0x81, i & 127]))]))
    elif k in ('ppm', 'ppt', 'tlm'):
        cd = {'ppm': b'\xff\x60', 'ppt': b'\xff\x61', 'tlm': b'\xff\x55'}[k]
        segs = [S(cd, k, [F('z', 1, i & 255), R('x', b'abc')]) for i in range(n)]
    elif k == 'poc':
        r = []
        for i in range(n):
            r += [F('r', 1, i % 33), F('c', w, i % 200), F('l', 2, i % 65535 + 1), F('e', 1, i % 33 + 1), F('c', w, i % 200 + 1), F('p', 1, 5 if bad and i == n - 1 else i % 5)]
        segs = [S(b'\xff\x5f', 'poc', r)]
    elif k == 'crg':
        segs = [S(b'\xff\x63', 'crg', [R('x', b''.join((i * 7 & 65535).to_bytes(2, 'big') + (i * 11 & 65535).to_bytes(2, 'big') for i in range(n - 1 if bad else n))[:65532])])]
    elif k in ('prf', 'cpf'):
        segs = [S(b'\xff\x56' if k == 'prf' else b'\xff\x59', k, [R('x', b''.join((i * 7 + 1 & 65535).to_bytes(2, 'big') for i in range(n - 1)) + (b'\0\0' if bad else b'\0\7'))])]
    elif k == 'parts':
        cs = tp_list(fmt, (1, 1), [(0, min(i, 254), min(255, n) - (1 if bad and i == n - 1 else 0)) for i in range(n)])
        return tp.bare(fmt, cs).ser(last=True), fmt, 'count parts %d %d' % (n, bad), {'pm': True}
    depths = None
    if k == 'siz':
        depths = [7, 137] * (n // 2) + [7] * (n % 2)
        depths[-1] = 38 if bad else 12
    return with_segments(fmt, segs, csiz, tile, depths), fmt, 'count %s %d %d' % (kind, n, bad), {'pm': True}


def count_phase(which, judge, want=lambda kind, n, bad: True, **more):
    items = [x for x in {'box': box_counts, 'seg': seg_counts, 'all': lambda: box_counts() + seg_counts()}[which]() if want(*x[:3])]
    boxed = {x[0] for x in box_counts()}

    def g(ch, i):
        d, fmt, label, par = (box_count_case if items[i][0] in boxed else seg_count_case)(items[i])
        return mk(d, fmt, label, **dict(par, **more))
    return Phase('counts', len(items), g, judge)


# ---------------------------------------------------------------- C09

class C09(Check):
    id = 'C09'
    rule = 'distinct files with image header and image-size segment whose height, width, component number, depths or signs agree or ' \
           'disagree in a chosen way'

    def phases(self, tier):
        j = judge_model('C09', props=False)
        k = SCALE[tier]
        m = 2 ** 32 - 1

        def g(ch, i):
            fmt = BOXFMTS[i % 2]
            csiz = ch.pick([1, 2, 3, 4, 5, 255, 256, 257, 300]) if not ch.p(1, 200) else ch.pick([1000, 1000, 1000, 16384])
            if csiz > 5 and not ch.p(20):
                csiz = 1 + ch.n(5)
            depths = [(ch.n(2) << 7 | ch.int(0, 37))] * csiz if ch.p(50) else [ch.n(2) << 7 | ch.int(0, 37) for _ in range(csiz)]
            cs = tp.lean_codestream(fmt, csiz, depths)
            sz = {x.name[4:]: x for x in cs.kids[1].kids}
            if ch.p(60):
                sz['xOsiz'].val = ch.pick([0, 1, 5, 15, ch.n(1 << 32)])
                sz['yOsiz'].val = ch.pick([0, 1, 5, 15, ch.n(1 << 32)])
                sz['xsiz'].val = min(m, sz['xOsiz'].val + ch.int(1, ch.pick([16, 70000, m])))
                sz['ysiz'].val = min(m, sz['yOsiz'].val + ch.int(1, ch.pick([16, 70000, m])))
            mode = ch.pick(['auto', 'bpcc', 'single'])
            real = [x.val for x in cs.kids[1].kids if x.name == 'siz.ssiz']
            bpc = 255 if mode == 'bpcc' or (mode == 'auto' and len(set(real)) > 1) else real[0]
            h = (sz['ysiz'].val - sz['yOsiz'].val) & m
            w = (sz['xsiz'].val - sz['xOsiz'].val) & m
            nc = csiz
            bl = list(real)
            what = []
            for _ in range(ch.n(3)):
                op = ch.n(8)
                if op == 0:
                    h = ch.pick([h + 1, h - 1, w, sz['ysiz'].val, h ^ (1 << ch.n(32)), h + sz['yOsiz'].val, h - (1 << 16)]) & m
                elif op == 1:
                    w = ch.pick([w + 1, w - 1, h, sz['xsiz'].val, w ^ (1 << ch.n(32)), w + sz['xOsiz'].val]) & m
                elif op == 2:
                    nc = ch.pick([nc + 1, max(0, nc - 1), nc & 255, nc + 256]) & 65535
                elif op == 3:
                    bpc = ch.pick([bpc ^ 128, (bpc + 1) & 255, ch.n(256), 255])
                elif op == 4:
                    a = ch.pick([0, len(bl) - 1, ch.n(len(bl))])
                    bl[a] ^= 128
                elif op == 5:
                    a = ch.pick([0, len(bl) - 1, ch.n(len(bl))])
                    bl[a] = ch.pick([(bl[a] & 128) | ((bl[a] + 1) & 127), ch.n(256)])
                elif op == 6:
                    bl = ch.pick([bl[:-1] or bl, bl + [bl[-1]], bl[::-1], bl[1:] + bl[:1]])
                else:
                    a = ch.pick([0, csiz - 1, ch.n(csiz)])
                    ss = [x for x in cs.kids[1].kids if x.name == 'siz.ssiz'][a]
                    ss.val = ch.pick([ss.val ^ 128, (ss.val + 1) & 255])
                what.append(op)
            f = tp.wrap(fmt, cs)
            ih = f.kids[2].kids[0]
            for nm, v in (('height', h), ('width', w), ('nC', nc), ('bPC', bpc)):
                for x in ih.kids:
                    if x.name == 'ihdr.' + nm:
                        x.val = v
            f.kids[2].kids = [ih] + ([Box(b'bpcc', 'bpcc', [F('b', 1, b) for b in bl])] if bpc == 255 or ch.p(10) else []) \
                + [x for x in f.kids[2].kids if x.name == 'colr']
            if ch.p(5):
                f.kids[2].kids = ch.shuffle(f.kids[2].kids)
            if ch.p(12):
                # a second box or codestream that says something else: the first one counts
                rep = ch.pick(['ihdr', 'bpcc', 'jp2h', 'jp2c', 'ihdr', 'order'])
                other = copy.deepcopy(f.kids[2].kids[0])
                for x in other.kids:
                    if x.name in ('ihdr.height', 'ihdr.width', 'ihdr.nC', 'ihdr.bPC') and ch.p(50):
                        x.val = ch.pick([x.val + 1, max(0, x.val - 1), 1]) & (255 if x.name == 'ihdr.bPC' else 65535 if x.name == 'ihdr.nC' else m)
                if rep == 'ihdr':
                    f.kids[2].kids.insert(ch.int(1, len(f.kids[2].kids)), other)
                elif rep == 'bpcc':
                    f.kids[2].kids.append(Box(b'bpcc', 'bpcc', [F('b', 1, ch.n(38)) for b in bl]))
                elif rep == 'jp2h':
                    f.kids.insert(ch.int(3, len(f.kids)), Box(b'jp2h', 'jp2h', [other]))
                elif rep == 'jp2c':
                    f.kids.append(Box(b'jp2c', 'jp2c', [tp.lean_codestream(fmt, 1 + ch.n(4))]))
                else:
                    f.kids[2:] = ch.shuffle(f.kids[2:])
                what.append(rep)
            return mk(f.ser(last=True), fmt, 'consistency %s' % what, True)
        roots = [tp.boxed('jp2'), tp.boxed('jph'), tp.plain('jp2'), tp.plain('jph')]
        want = lambda n: n in ('ihdr.height', 'ihdr.width', 'ihdr.nC', 'ihdr.bPC', 'bpcc.bPC', 'siz.xsiz', 'siz.ysiz', 'siz.xOsiz', 'siz.yOsiz',
                               'siz.csiz', 'siz.ssiz')
        return [Phase('consistency', 9000 * k, g, j), sweep_phase('field-sweep', roots, want, j, per_name=3),
                Phase('perturbed', 1500 * k, gen_pert(BOXFMTS, ['field', 'field', 'struct', 'length'], only=want, times=3, cfg=Small), j)]


# ---------------------------------------------------------------- C10

C10_FIELDS = ('ftyp.', 'siz.rsiz', 'colr.', 'ihdr.unkC', 'cdef.', 'rgn.', 'cap.', 'prf.', 'cpf.', 'cod.cbstyle', 'coc.cbstyle', 'icc.class', 'icc.tag')


class C10(Check):
    id = 'C10'
    rule = 'distinct (file, format) contents where a field with format-specific rules was set to a chosen value, or a file of one format ' \
           'was analysed in the others'

    def phases(self, tier):
        j = judge_model('C10', props=False)
        k = SCALE[tier]
        q = tier == 'quick'

        def cross(fmts, g0):
            def g(ch, i):
                c = g0(ch, i)
                if c is None:
                    return None
                fmt = c.par['fmt']
                c.par['fmts'] = list(BOXFMTS if fmt in BOXFMTS else CSFMTS)
                if ch.p(4):
                    c.par['fmts'] = list(FMTS)
                return c
            return g
        want = lambda n: n.startswith(C10_FIELDS)
        ph = []
        roots = [tp.boxed('jp2'), tp.boxed('jph'), tp.bare('j2c', tp.rich_codestream('j2c')), tp.bare('jhc', tp.rich_codestream('jhc'))]
        s = sweep_phase('field-sweep', roots, want, j, per_name=2)
        ph.append(Phase('field-sweep', s.count, cross(None, s.gen), j))
        cases = special_boxes('jp2') + special_boxes('jph')
        cases = [c for c in cases if c[2].split()[0] in ('cdef', 'colr', 'ftyp')]
        cases += [c for c in icc_cases('jph') if 'class' in c[2] or 'a2b0' in c[2]]
        cases += [c for c in siz_cases('jhc') + siz_cases('j2c') if c[2].startswith('rsiz')]
        cases += [c for c in special_segments('jhc') if c[2].split()[0] in ('cap', 'ccap15', 'crgn', 'prf', 'cpf')]
        l = list_phase('contents', cases, j)
        ph.append(Phase('contents', l.count, cross(None, l.gen), j))
        sq = [x for x in box_sequences('quick') if x[0] == 'hdr' and ('U' in x[1] or 'c' not in x[1])]

        def gs(ch, i):
            level, s_, fmt = sq[i]
            c = mk(build_sequence(level, s_, fmt), fmt, '%s %s' % (level, ''.join(s_)))
            c.par['fmts'] = list(BOXFMTS)
            return c
        sq = sq[::2] if q else sq
        ph.append(Phase('header-sequences', len(sq), gs, j))
        ph.append(Phase('conforming', 1200 * k, cross(None, gen_conf(FMTS, Small)), j))
        ph.append(Phase('perturbed', 1200 * k, cross(None, gen_pert(FMTS, ['field'], only=want, times=3, cfg=Small)), j))
        return ph


# ---------------------------------------------------------------- C11 - C13

class C11(Check):
    id = 'C11'
    rule = 'distinct files; every property of every box is compared with the bytes of the field'

    def phases(self, tier):
        j = judge_model('C11', tests=False)
        k = SCALE[tier]
        q = tier == 'quick'
        cases = []
        for fmt in BOXFMTS:
            cases += special_boxes(fmt) + icc_cases(fmt)
        cuts = box_cuts('jp2') + box_cuts('jph')
        roots = [tp.boxed('jp2'), tp.boxed('jph')]
        sq = [x for x in box_sequences('quick') if x[0] != 'top'][::3 if q else 1]

        def gs(ch, i):
            level, s_, fmt = sq[i]
            return mk(build_sequence(level, s_, fmt), fmt, '%s %s' % (level, ''.join(s_)))
        onlyc = lambda c: isinstance(c, (Box, gen.File)) and c.name != 'jp2c'
        return [sweep_phase('field-sweep', roots, is_boxfield, j, per_name=1 if q else 3, full=not q),
                count_phase('box', j), list_phase('contents', cases, j), list_phase('cuts', cuts, j),
                Phase('sequences', len(sq), gs, j),
                Phase('conforming', 2500 * k, gen_conf(BOXFMTS), j),
                Phase('perturbed', 3000 * k, gen_pert(BOXFMTS, ['field', 'struct', 'length'], only=is_boxfield, onlyc=onlyc, times=3, cfg=Small), j)]


class C12(Check):
    id = 'C12'
    rule = 'distinct codestreams; every property of every marker segment and tile-part is compared with the bytes of the field'

    def phases(self, tier):
        j = judge_model('C12', tests=False)
        k = SCALE[tier]
        q = tier == 'quick'
        roots = [tp.bare('j2c', tp.rich_codestream('j2c')), tp.bare('jhc', tp.rich_codestream('jhc', style=0, tag='q'))]
        wide = [tp.bare('j2c', tp.rich_codestream('j2c', 300))]
        sp = special_segments('j2c') + special_segments('jhc') + tile_cases('jhc')
        si = siz_cases('j2c')
        cuts = seg_cuts('j2c') + seg_cuts('jhc') + seg_cuts('jhc', 257)
        ar = arrangements('quick')

        def ga(ch, i):
            fmt, nt, parts, last0 = ar[(i * 7) % len(ar)]
            return mk(tp.bare(fmt, tp_list(fmt, nt, parts, last0)).ser(last=True), fmt, 'arrangement %s' % (nt,))
        return [sweep_phase('field-sweep', roots, is_csfield, j, per_name=1 if q else 3, full=not q),
                sweep_phase('field-sweep-wide', wide, lambda n: n.startswith(('coc.c', 'qcc.c', 'rgn.c', 'poc.c')) and n.split('.')[1][:2] not in ('cb',), j),
                count_phase('seg', j), list_phase('segments', sp, j), list_phase('image-size', si, j),
                list_phase('cuts', cuts, j), Phase('arrangements', len(ar), ga, j),
                Phase('conforming', 1800 * k, gen_conf(FMTS), j),
                Phase('perturbed', 1200 * k, gen_pert(FMTS, ['field', 'struct', 'length'], only=is_csfield, times=3, cfg=Small), j)]


class C13(Check):
    id = 'C13'
    rule = 'distinct files that determine at least one derived value'

    def phases(self, tier):
        j = judge_model('C13', tests=False)
        k = SCALE[tier]
        q = tier == 'quick'
        want = lambda n: n.startswith(('resc.', 'resd.', 'siz.', 'icc.', 'cap.', 'prf.', 'cpf.', 'ihdr.height', 'ihdr.width', 'ihdr.nC', 'bpcc',
                                       'cod.cb', 'cod.precinct', 'coc.cb', 'coc.precinct', 'qcd', 'qcc', 'ihdr.bPC')) \
            and n not in ('icc.tagoff', 'icc.tagsize')
        roots = [tp.boxed('jp2'), tp.boxed('jph'), tp.plain('jp2'), tp.bare('j2c', tp.rich_codestream('j2c')), tp.bare('jhc', tp.rich_codestream('jhc'))]

        def gres(ch, i):
            fmt = BOXFMTS[i % 2]
            boxes = []
            for t, nm in ((b'resc', 'resc'), (b'resd', 'resd')):
                n = lambda: ch.int(0, 65535)
                e = lambda: ch.pick([0, 1, 2, 4, 255, 254, 250, 127, 128, ch.n(256)])
                boxes.append(Box(t, nm, [F('vN', 2, n()), F('vD', 2, n()), F('hN', 2, n()), F('hD', 2, n()), F('vE', 1, e()), F('hE', 1, e())]))
            f = tp.wrap(fmt, tp.lean_codestream(fmt))
            f.kids[2].kids.append(Box(b'res ', 'res', boxes if ch.p(70) else boxes[:1]))
            return mk(f.ser(last=True), fmt, 'resolution')

        def gratio(ch, i):
            fmt = FMTS[i % 4]
            csiz = 1 + ch.n(4) if ch.p(90) else ch.int(1, 400)
            depths = [ch.n(2) << 7 | ch.int(0, 37) for _ in range(csiz)]
            if ch.p(40):
                depths = [depths[0]] * csiz
            cs = tp.lean_codestream(fmt, csiz, depths, data=bytes(ch.int(1, 5000)))
            sz = {x.name[4:]: x for x in cs.kids[1].kids}
            m = 2 ** 32 - 1
            for a in 'xy':
                sz[a + 'Osiz'].val = ch.pick([0, 0, 1, 15, ch.n(1 << 31)])
                sz[a + 'siz'].val = min(m, sz[a + 'Osiz'].val + ch.int(1, ch.pick([16, 300, 70000, m])))
                sz[a + 'Tsiz'].val = ch.int(1, ch.pick([16, 300, 70000, m]))
                sz[a + 'TOsiz'].val = ch.int(0, sz[a + 'Osiz'].val)
            cs.geo = (sz['xsiz'].val, sz['ysiz'].val, sz['xOsiz'].val, sz['yOsiz'].val)
            f = tp.wrap(fmt, cs) if fmt in BOXFMTS else tp.bare(fmt, cs)
            return mk(f.ser(last=True), fmt, 'ratio')
        cases = siz_cases('j2c')
        cases += [c for c in special_segments('jhc') if c[2].split()[0] in ('cap', 'ccap15', 'prf', 'cpf', 'precinct', 'codeblock', 'qcc', 'qcd')]
        cases += icc_cases('jp2')[::1]
        return [sweep_phase('field-sweep', roots, want, j, per_name=2, full=not q),
                list_phase('contents', cases, j), Phase('resolution', 4000 * k, gres, j), Phase('ratio', 4000 * k, gratio, j),
                Phase('conforming', 1200 * k, gen_conf(FMTS, Small), j),
                Phase('perturbed', 1500 * k, gen_pert(FMTS, ['struct', 'length', 'field'], times=3, cfg=Small), j),
                Phase('mutated', 800 * k, gen_mutated(FMTS, Small), j)]


# ---------------------------------------------------------------- large files

BIG_SIZES = [65534, 65535, 65536, 65537, 131073, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3000000, (1 << 22) + 5, 10 ** 7, (1 << 24) + 3]
BIG_KINDS = ['data', 'data0', 'parts', 'jp2c', 'jp2c0', 'xml', 'uuid', 'unknown', 'xmp', 'after']


def big_count(tier):
    return len(BIG_SIZES) * len(BIG_KINDS)


def big_file(i):
    """(bytes, format, label) of a conforming file of about BIG_SIZES[...] bytes."""
    n = BIG_SIZES[i % len(BIG_SIZES)]
    kind = BIG_KINDS[i // len(BIG_SIZES)]
    pat = b'\x80\x11\xff\x01\x42'
    body = (pat * (n // len(pat) + 1))[:n - 1] + b'\x01'
    if kind in ('data', 'data0', 'parts'):
        fmt = CSFMTS[i % 2]
        if kind == 'parts':
            cs = tp.lean_codestream(fmt, 1, ntiles=(2, 2), parts=2, data=body[:n // 8].rstrip(b'\xff') + b'\1')
        else:
            cs = tp.lean_codestream(fmt, 3, data=body)
        if kind == 'data0':
            [x for x in cs.kids if isinstance(x, TP)][-1].psot = 0
        f = tp.bare(fmt, cs)
    else:
        fmt = BOXFMTS[i % 2]
        pre, post = [], []
        data = b'\x11\x22'
        if kind in ('jp2c', 'jp2c0'):
            data = body
        elif kind in ('xml', 'xmp'):
            x = b'<a>' + b'x y' * (n // 3) + b'</a>'
            pre = [Box(b'xml ', 'xml', [R('x', x)])] if kind == 'xml' else [Box(b'uuid', 'uuid', [R('i', gen.XMP_UUID), R('x', x)])]
        elif kind == 'uuid':
            pre = [Box(b'uuid', 'uuid', [R('i', b'\7' * 16), R('x', body)])]
        elif kind == 'unknown':
            pre = [Box(b'wxyz', 'unknown', [R('x', body)])]
        else:
            post = [Box(b'uuid', 'uuid', [R('i', b'\7' * 16), R('x', body)])]
        f = tp.wrap(fmt, tp.lean_codestream(fmt, 1, data=data), mid=pre, post=post)
        if kind == 'jp2c0':
            for b in gen.containers(f):
                if isinstance(b, Box) and b.name == 'jp2c':
                    b.lmode = '0'
    return f.ser(last=True), fmt, 'large %s %d' % (kind, n)


GRIDS = [(1000, 1), (64, 65), (1, 8193), (129, 128), (32769, 1)]


def many_tiles(tier):
    """Large numbers of tiles: complete, incomplete and with wrong indices; (format, grid, parts, conforming)."""
    out = []
    for n_, nt in enumerate(GRIDS + ([(65535, 1), (257, 255)] if tier != 'quick' else [])):
        fmt = CSFMTS[n_ % 2]
        n = nt[0] * nt[1]
        allp = [(t, 0, 1) for t in range(n)]
        out.append((fmt, nt, allp, True))
        if n < 10000:
            out += [(fmt, nt, allp[::-1], True), (fmt, nt, [(t, 0, 0) for t in range(n)], True), (fmt, nt, allp[:-1], False), (fmt, nt, allp[1:], False),
                    (fmt, nt, allp[:-1] + [(n, 0, 1)], False), (fmt, nt, allp[:n // 2] + [(n // 2 - 1, 1, 1)] + allp[n // 2 + 1:], False),
                    (fmt, nt, allp + [(n - 1, 1, 1)], False), (fmt, nt, allp[:-1] + [(n - 1, 0, 2)], False)]
        elif n < 20000:
            out += [(fmt, nt, allp[:-1], False), (fmt, nt, allp[:-1] + [(n, 0, 1)], False)]
    return out


def many_case(item):
    fmt, nt, parts, ok = item
    return Case([('f.jp2', tp.bare(fmt, tp_list(fmt, nt, parts, data=b'')).ser(last=True))], {'fmt': fmt}, True, 'many-tiles %s' % (nt,))


# ---------------------------------------------------------------- C03

def judge_c03(case, env):
    path = env.put(case.files[0][1])
    fmt = case.par['fmt']
    g = run(path, fmt, verbose=case.par.get('verbose', False), pm=case.par.get('pm', False), nullxml=case.par.get('nullxml', False))
    if not g.ok or g.verdict != 'True' or failed(g.tests):
        return '[%s] conforming file not accepted: verdict %s, failed tests %s, status %s' % (
            fmt, g.verdict, ['/'.join(p) for p in failed(g.tests)[:5]], g.status.val('failureMessage'))
    if (g.valid.attrib or {}).get('format') != fmt:
        return 'the report names format %r instead of %r' % (g.valid.attrib, fmt)
    return None


class C03(Check):
    id = 'C03'
    rule = 'distinct conforming files: built by the grammar generator, or sweep cases that the reference model finds to satisfy every rule'

    def phases(self, tier):
        k = SCALE[tier]
        q = tier == 'quick'
        judge = guarded(judge_c03)

        class Wide(gen.Cfg):
            max_tiles = 12
            max_parts = 4
            data = 120
            big_csiz = 15

        def legal(g0):
            """Only the cases without a broken rule."""
            def g(ch, i):
                c = g0(ch, i)
                if c is None:
                    return None
                if ref.analyse(c.files[0][1], c.par['fmt']).valid is not True:
                    return None
                return c
            return g
        roots = [tp.boxed('jp2'), tp.boxed('jph'), tp.plain('jph'), tp.bare('j2c', tp.rich_codestream('j2c')), tp.bare('jhc', tp.rich_codestream('jhc'))]
        s = sweep_phase('legal-fields', roots, lambda n: not n.startswith('icc.tag'), None, per_name=1)
        cases = []
        for fmt in BOXFMTS:
            cases += special_boxes(fmt) + icc_cases(fmt)
        for fmt in CSFMTS:
            cases += special_segments(fmt) + tile_cases(fmt) + [c for c in siz_cases(fmt) if c[2][:4] in ('csiz', 'rsiz')]
        l = list_phase('legal-contents', cases, None)
        ar = [a for a in arrangements('quick')]

        def ga(ch, i):
            fmt, nt, parts, last0 = ar[i]
            return mk(tp.bare(fmt, tp_list(fmt, nt, parts, last0)).ser(last=True), fmt, 'arrangement %s' % (nt,))
        sq = box_sequences('quick')[::3 if q else 1]

        def gs(ch, i):
            level, s_, fmt = sq[i]
            return mk(build_sequence(level, s_, fmt), fmt, '%s %s' % (level, ''.join(s_)))

        def gbig(ch, i):
            d, fmt, label = big_file(i)
            return Case([('f.jp2', d)], {'fmt': fmt}, True, label)
        mt = [x for x in many_tiles(tier) if x[3]]
        return [Phase('many-tiles', len(mt), lambda ch, i: many_case(mt[i]), judge), Phase('large', big_count(tier), gbig, judge), count_phase('all', judge, lambda kind, n, bad: not bad and (kind, n) not in (('crg', 16384), ('parts', 256))), Phase('grammar', 4000 * k, gen_conf(FMTS), judge), Phase('grammar-wide', 800 * k, gen_conf(FMTS, Wide), judge),
                Phase('legal-fields', s.count, legal(s.gen), judge), Phase('legal-contents', l.count, legal(l.gen), judge),
                Phase('legal-arrangements', len(ar), legal(ga), judge), Phase('legal-sequences', len(sq), legal(gs), judge)]
