"""Fixed template files for sweeps: rich ones contain every box and every marker
segment the tool knows, lean ones only what is required.  Sweeps set one field of a
template to each value of a list of interesting values."""
import random

from . import gen, harvest
from .ast import F, R, Cont, Box, Seg, Mark, TP, fields
from .choices import Choices


def _ch(tag):
    return Choices(random.Random('template:' + tag))


def rich_codestream(fmt, csiz=3, depths=None, style=2, tag='', ntiles=(2, 1), pm=True):
    """Codestream with every marker segment; two tile-parts per tile."""
    ch = _ch('cs%s%d%s' % (fmt, csiz, tag))
    nx, ny = ntiles
    geo = (nx * 32 + 5, ny * 40 + 3, 5, 3, 32, 40, 5, 3)
    depths = depths or [7] * csiz
    siz = gen.gen_siz(ch, fmt, gen.Cfg, csiz, geo, depths)
    siz.kids[0].val = 0x4000 if fmt in ('jph', 'jhc') else 0
    last = csiz - 1

    def spcod(nm, prec):
        k = [F(nm + '.levels', 1, 2), F(nm + '.cbw', 1, 4), F(nm + '.cbh', 1, 3), F(nm + '.cbstyle', 1, 0),
             F(nm + '.transf', 1, 1)]
        if prec:
            k += [F(nm + '.precinct', 1, v) for v in (0x54, 0x65, 0x76)]
        return k

    def cod(prec=1):
        return Seg(b'\xff\x52', 'cod', [F('cod.scod', 1, prec), F('cod.order', 1, 2), F('cod.layers', 2, 6),
                                        F('cod.mct', 1, 1)] + spcod('cod', prec))

    def coc(c, prec=1):
        return Seg(b'\xff\x53', 'coc', [gen.cidx('coc.ccoc', csiz, c), F('coc.scoc', 1, prec)] + spcod('coc', prec))

    def quant(nm, st):
        k = [F(nm + '.sq', 1, st | (2 << 5))]
        if st == 1:
            return k + [F(nm + '.spq', 2, 0x7123)]
        return k + [F(nm + '.spq', 1 if st == 0 else 2, (9 + i) << 3 if st == 0 else 0x7000 + 257 * i) for i in range(7)]

    def qcd(st):
        return Seg(b'\xff\x5c', 'qcd', quant('qcd', st))

    def qcc(c, st):
        return Seg(b'\xff\x5d', 'qcc', [gen.cidx('qcc.cqcc', csiz, c)] + quant('qcc', st))

    def rgn(c):
        return Seg(b'\xff\x5e', 'rgn', [gen.cidx('rgn.crgn', csiz, c), F('rgn.style', 1, 0), F('rgn.shift', 1, 7)])

    def poc():
        k = []
        for j in range(2):
            k += [F('poc.rspoc', 1, j), gen.cidx('poc.cspoc', csiz, j), F('poc.lyepoc', 2, 3 + j),
                  F('poc.repoc', 1, 4 + j), gen.cidx('poc.cepoc', csiz, 9 + j), F('poc.order', 1, 1 + j)]
        return Seg(b'\xff\x5f', 'poc', k)

    def com(txt=b'Kakadu-v7.2.2'):
        return Seg(b'\xff\x64', 'com', [F('com.rcom', 2, 1), R('com.txt', txt)])

    def plt(z):
        return Seg(b'\xff\x58', 'plt', [F('plt.zplt', 1, z)] + [F('plt.ipl', 1, v) for v in (5, 0x81, 0x02, 9)])

    def ppt(z):
        return Seg(b'\xff\x61', 'ppt', [F('ppt.z', 1, z), R('ppt.raw', b'\x01\x02\x03')])

    crg = []
    for j in range(csiz):
        crg += [F('crg.xcrg', 2, 100 + j), F('crg.ycrg', 2, 200 + j)]
    cap = Seg(b'\xff\x50', 'cap', [F('cap.pcap', 4, 1 << 17), F('cap.ccap15', 2, 0)])
    main = [cap, cod(), qcd(style), coc(0), coc(last, 0) if last else None, qcc(0, 0), qcc(last, 1) if last else None,
            rgn(last), poc(), Seg(b'\xff\x63', 'crg', crg), com(), com(b'second'),
            Seg(b'\xff\x56', 'prf', [F('prf.p', 2, 1), F('prf.p', 2, 2)]),
            Seg(b'\xff\x59', 'cpf', [F('cpf.p', 2, 1), F('cpf.p', 2, 2)]),
            Seg(b'\xff\x55', 'tlm', [R('tlm.raw', b'\0\x40\1\2\3\4')]),
            Seg(b'\xff\x57', 'plm', [F('plm.zplm', 1, 0), F('plm.nplm', 1, 4)] + [F('plm.ipl', 1, v) for v in (5, 0x81, 0x02, 9)]),
            Seg(b'\xff\x60', 'ppm', [R('ppm.raw', b'\0\0\0\0\3\1\2\3')])]
    main = [m for m in main if m is not None]
    tps = []
    n = nx * ny
    for part in range(2):
        for t in range(n):
            hdr = []
            if t == 0 and part == 0:
                hdr = [cod(), coc(last), qcd(0), qcc(last, 2), rgn(0), poc(), plt(0), ppt(0), com(b'tile')]
            elif t == n - 1:
                hdr = [poc(), plt(1), ppt(1), com(b'last')]
            tps.append(TP(F('sot.isot', 2, t), F('sot.tpsot', 1, part), F('sot.tnsot', 1, 2),
                          hdr + [Mark(b'\xff\x93', 'sod'), R('data', b'\x11\x22\x33\x44' * (1 + t))]))
    cs = gen.CS('codestream', [Mark(b'\xff\x4f', 'soc'), siz] + main + tps + [Mark(b'\xff\xd9', 'eoc')])
    cs.csiz, cs.geo, cs.depths = csiz, geo, depths
    return cs


def lean_codestream(fmt, csiz=1, depths=None, ntiles=(1, 1), parts=1, rsiz=None, data=b'\x11\x22\x33\x44'):
    nx, ny = ntiles
    geo = (nx * 16, ny * 16, 0, 0, 16, 16, 0, 0)
    depths = depths or [7] * csiz
    if rsiz is None:
        rsiz = 0x4000 if fmt in ('jph', 'jhc') else 0
    k = [F('siz.rsiz', 2, rsiz)]
    for nm, v in zip(('xsiz', 'ysiz', 'xOsiz', 'yOsiz', 'xTsiz', 'yTsiz', 'xTOsiz', 'yTOsiz'), geo):
        k.append(F('siz.' + nm, 4, v))
    k.append(F('siz.csiz', 2, csiz))
    for d in depths:
        k += [F('siz.ssiz', 1, d), F('siz.xRsiz', 1, 1), F('siz.yRsiz', 1, 1)]
    main = [Seg(b'\xff\x51', 'siz', k)]
    if rsiz >> 14 == 1:
        main.append(Seg(b'\xff\x50', 'cap', [F('cap.pcap', 4, 1 << 17), F('cap.ccap15', 2, 0)]))
    main += [Seg(b'\xff\x52', 'cod', [F('cod.scod', 1, 0), F('cod.order', 1, 0), F('cod.layers', 2, 1), F('cod.mct', 1, 0),
                                      F('cod.levels', 1, 0), F('cod.cbw', 1, 4), F('cod.cbh', 1, 4), F('cod.cbstyle', 1, 0),
                                      F('cod.transf', 1, 1)]),
             Seg(b'\xff\x5c', 'qcd', [F('qcd.sq', 1, 0x40), F('qcd.spq', 1, 0x48)])]
    tps = []
    for t in range(nx * ny):
        for p in range(parts):
            tps.append(TP(F('sot.isot', 2, t), F('sot.tpsot', 1, p), F('sot.tnsot', 1, parts),
                          [Mark(b'\xff\x93', 'sod'), R('data', data)]))
    cs = gen.CS('codestream', [Mark(b'\xff\x4f', 'soc')] + main + tps + [Mark(b'\xff\xd9', 'eoc')])
    cs.csiz, cs.geo, cs.depths = csiz, geo, depths
    return cs


def icc_desc(name):
    return b'desc\0\0\0\0' + (len(name) + 1).to_bytes(4, 'big') + name + b'\0'


def icc(restricted=True, name=b'sRGB IEC61966-2.1'):
    k = []
    for nm, sz, v in (('size', 4, 0), ('cmm', 4, 0x6c636d73), ('major', 1, 2), ('minor', 1, 0x40), ('res', 2, 0),
                      ('class', 4, 0x6d6e7472), ('space', 4, 0x52474220), ('pcs', 4, 0x58595a20),
                      ('year', 2, 2009), ('month', 2, 3), ('day', 2, 27), ('hour', 2, 21), ('min', 2, 36), ('sec', 2, 31),
                      ('acsp', 4, 0x61637370), ('plat', 4, 0x4d534654), ('flags', 4, 0), ('manu', 4, 0x49454320),
                      ('model', 4, 0x73524742), ('attr', 8, 0), ('intent', 4, 0), ('illX', 4, 0xf6d6), ('illY', 4, 0x10000),
                      ('illZ', 4, 0xd32d), ('creator', 4, 0x6c636d73)):
        k.append(F('icc.' + nm, sz, v))
    k += [R('icc.id', bytes(range(1, 17))), R('icc.pad', bytes(28))]
    d = icc_desc(name)
    entries = [(b'cprt', b'text\0\0\0\0abc\0'), (b'desc', d), (b'wtpt', b'XYZ ' + bytes(16))]
    k.append(F('icc.tagcount', 4, len(entries)))
    off = 132 + 12 * len(entries)
    blob = b''
    for t, x in entries:
        k += [F('icc.tag', 4, int.from_bytes(t, 'big')), F('icc.tagoff', 4, off + len(blob)), F('icc.tagsize', 4, len(x))]
        blob += x
    k.append(R('icc.body', blob))
    k[0].val = off + len(blob)
    return Cont('icc', k)


def resx(typ, nm):
    return Box(typ, nm, [F(nm + '.vN', 2, 300), F(nm + '.vD', 2, 7), F(nm + '.hN', 2, 600), F(nm + '.hD', 2, 11),
                         F(nm + '.vE', 1, 2), F(nm + '.hE', 1, 3)])


def wrap(fmt, cs, header=None, pre=(), mid=(), post=(), bpc=None, unkc=0, ipr=0):
    xs, ys, xo, yo = cs.geo[:4]
    vary = len(set(cs.depths)) > 1
    if bpc is None:
        bpc = 255 if vary else cs.depths[0]
    kids = [Box(b'ihdr', 'ihdr', [F('ihdr.height', 4, ys - yo), F('ihdr.width', 4, xs - xo), F('ihdr.nC', 2, cs.csiz),
                                  F('ihdr.bPC', 1, bpc), F('ihdr.c', 1, 7), F('ihdr.unkC', 1, unkc), F('ihdr.iPR', 1, ipr)])]
    if bpc == 255:
        kids.append(Box(b'bpcc', 'bpcc', [F('bpcc.bPC', 1, d) for d in cs.depths]))
    if header is None:
        header = [Box(b'colr', 'colr', [F('colr.meth', 1, 1), F('colr.prec', 1, 0), F('colr.approx', 1, 0), F('colr.enumCS', 4, 16)])]
    kids += header
    brand = int.from_bytes(gen.brand_of(fmt), 'big')
    top = [Box(b'jP  ', 'jP', [F('jP.sig', 4, 0x0d0a870a)]),
           Box(b'ftyp', 'ftyp', [F('ftyp.br', 4, brand), F('ftyp.minV', 4, 0), F('ftyp.cl', 4, brand)])]
    f = gen.File('file', top + list(pre) + [Box(b'jp2h', 'jp2h', kids)] + list(mid)
                 + [Box(b'jp2c', 'jp2c', [cs])] + list(post))
    f.cs, f.fmt = cs, fmt
    return f


def colr_enum(v=16):
    return Box(b'colr', 'colr', [F('colr.meth', 1, 1), F('colr.prec', 1, 0), F('colr.approx', 1, 0), F('colr.enumCS', 4, v)])


def colr_icc(meth=2):
    return Box(b'colr', 'colr', [F('colr.meth', 1, meth), F('colr.prec', 1, 0), F('colr.approx', 1, 0), icc()])


def colr_param():
    return Box(b'colr', 'colr', [F('colr.meth', 1, 5), F('colr.prec', 1, 0), F('colr.approx', 1, 0), F('colr.colPrims', 2, 1),
                                 F('colr.transfC', 2, 1), F('colr.matCoeffs', 2, 1), F('colr.vidFRng', 1, 128)])


def pclr():
    k = [F('pclr.nE', 2, 2), F('pclr.nPC', 1, 2), F('pclr.B', 1, 7), F('pclr.B', 1, 15)]
    return Box(b'pclr', 'pclr', k + [R('pclr.C', bytes([1, 2, 3, 4, 5, 6]))])


def cmap():
    return Box(b'cmap', 'cmap', [F('cmap.cMP', 2, 0), F('cmap.mTyp', 1, 1), F('cmap.pCol', 1, 0),
                                 F('cmap.cMP', 2, 0), F('cmap.mTyp', 1, 1), F('cmap.pCol', 1, 1)])


def cdef():
    return Box(b'cdef', 'cdef', [F('cdef.n', 2, 2), F('cdef.cN', 2, 0), F('cdef.cTyp', 2, 0), F('cdef.cAssoc', 2, 1),
                                 F('cdef.cN', 2, 1), F('cdef.cTyp', 2, 1), F('cdef.cAssoc', 2, 0)])


def uinf():
    return Box(b'uinf', 'uinf', [
        Box(b'ulst', 'ulst', [F('ulst.nU', 2, 2), R('ulst.id', bytes(range(16))), R('ulst.id', bytes(range(100, 116)))]),
        Box(b'url ', 'url', [F('url.version', 1, 0), F('url.flag', 3, 0), R('url.loc', b'http://ex.org/\0')])])


def boxed(fmt):
    """File with every box type; lean codestream of 3 components with different depths."""
    hdr = [colr_enum(), colr_icc(2)]
    if fmt == 'jph':
        hdr += [colr_param(), colr_icc(3)]
    hdr += [pclr(), cmap(), cdef(), Box(b'res ', 'res', [resx(b'resc', 'resc'), resx(b'resd', 'resd')])]
    cs = lean_codestream(fmt, 3, [7, 11, 0x87])
    return wrap(fmt, cs, hdr,
                pre=[Box(b'xml ', 'xml', [R('xml.data', b'<a b="c">d</a>')])],
                mid=[Box(b'uuid', 'uuid', [R('uuid.id', gen.XMP_UUID), R('uuid.xmp', b'<x:xmpmeta xmlns:x="adobe:ns:meta/"/>')]),
                     Box(b'uuid', 'uuid', [R('uuid.id', bytes(range(16))), R('uuid.data', b'payload')]),
                     Box(b'jp2i', 'jp2i', [R('jp2i.raw', b'rights')])],
                post=[uinf(), Box(b'test', 'unknown', [R('unknown.raw', b'abc')])], ipr=1)


def plain(fmt):
    """File with the image header's own depth (no bpcc)."""
    return wrap(fmt, lean_codestream(fmt, 2, [7, 7]))


def bare(fmt, cs):
    f = gen.File('file', [cs])
    f.cs, f.fmt = cs, fmt
    return f


def field_values(f, full=False):
    """Values to try for a field of this size."""
    m = (1 << (8 * f.size)) - 1
    if f.size == 1:
        return list(range(256))
    vs = set(range(0, 41)) | {m - i for i in range(4)}
    for k in range(8 * f.size):
        for d in (-1, 0, 1):
            vs.add((1 << k) + d)
    for v in harvest.ints():
        vs.add(v)
        if full:
            vs.update((v - 1, v + 1))
    for v in harvest.new_ints():
        vs.update((v - 1, v, v + 1))
    for d in (-2, -1, 1, 2):
        vs.add(f.val + d)
    if f.size == 4:
        for b in harvest.byte_strings():
            if len(b) == 4 and (full or f.name in TEXT4):
                vs.add(int.from_bytes(b, 'big'))
                vs.add(int.from_bytes(b.upper(), 'big'))
                vs.add(int.from_bytes(b.lower(), 'big'))
        vs.update(f.val ^ (1 << k) for k in range(32))
    vs.discard(f.val)
    if f.name in COUNTS:
        # large counts are slow to analyse
        vs = {v for v in vs if v <= 1025 or v in COUNTS[f.name] or (v in harvest.new_ints() and v < 70000)}
    return sorted(v for v in vs if 0 <= v <= m)


COUNTS = {'siz.csiz': (16383, 16384, 16385, 65535), 'cdef.n': (16384, 65535), 'ulst.nU': (16384, 65535)}
TEXT4 = ('ftyp.br', 'ftyp.cl', 'icc.class', 'icc.plat', 'icc.acsp', 'icc.tag', 'icc.space', 'icc.pcs')


def sweep(roots, want, per_name=2, full=False):
    """List of (root, field, value): fields whose name satisfies want; first and last instances."""
    out = []
    for root in roots:
        by = {}
        for f in fields(root):
            if want(f.name):
                by.setdefault(f.name, []).append(f)
        for nm in sorted(by):
            fs = by[nm]
            pick = fs if len(fs) <= per_name else [fs[0], fs[-1]][:per_name]
            seen = set()
            for f in pick:
                if id(f) in seen:
                    continue
                seen.add(id(f))
                for v in field_values(f, full):
                    out.append((root, f, v))
    return out


def with_value(root, f, v):
    old = f.val
    f.val = v
    try:
        return root.ser(last=True)
    finally:
        f.val = old
