"""Generators of conforming JP2/JPH files and J2C/JHC codestreams, and of
perturbations of them.  Conforming means: satisfies the requirements the user
manual documents for the format (which follow ISO/IEC 15444-1 and -15)."""
from .ast import F, R, Cont, Box, Seg, Mark, TP, walk, fields, containers
from . import xmlgen

FORMATS = ('jp2', 'jph', 'j2c', 'jhc')
KNOWN_TYPES = (b'jp2i', b'xml ', b'uuid', b'uinf', b'jP  ', b'ftyp', b'jp2h', b'ihdr',
               b'bpcc', b'colr', b'pclr', b'cmap', b'cdef', b'res ', b'jp2c', b'resc',
               b'resd', b'ulst', b'url ')
XMP_UUID = bytes.fromhex('be7acfcb97a942e89c71999491e3afac')


class Cfg:
    """Size knobs of the generator."""
    max_tiles = 6
    max_parts = 3
    data = 40
    big_csiz = 6        # percent of files with 257..300 components
    many = True         # optional boxes and segments
    max_csiz = 300


def cs_data(ch, n):
    """Packet data: never contains 0xFF followed by a byte above 0x8F, nor ends in 0xFF."""
    d = bytearray(ch.blob(n))
    for i in range(len(d)):
        if d[i] == 0xff and (i + 1 == len(d) or d[i + 1] > 0x8f):
            d[i] = 0xfe
    return bytes(d)


# ---------------------------------------------------------------- codestream

def ceil_div(a, b):
    return -((-a) // b)


def gen_geometry(ch, cfg):
    """(xsiz, ysiz, xO, yO, xT, yT, xTO, yTO) with 1..max_tiles tiles."""
    out = []
    want = [1, 1]
    if ch.p(60):
        want = [1 + ch.n(3), 1 + ch.n(3)]
        while want[0] * want[1] > cfg.max_tiles:
            want = [max(1, want[0] - 1), max(1, want[1] - 1)]
        if ch.p(8) and cfg.max_tiles >= 6:
            want = ch.pick([(1, 17), (20, 1), (5, 4)])
    res = []
    for k in range(2):
        n = want[k]
        t = ch.int(1, ch.pick([64, 1024, (2 ** 32 - 2) // max(n, 1)]))
        to = ch.int(0, ch.pick([0, 5, 300])) if ch.p(40) else 0
        if ch.p(4):
            to = ch.int(0, 2 ** 32 - 2 - n)
            t = ch.int(1, 64)
        # extent so that exactly n tiles are needed
        lo, hi = to + (n - 1) * t + 1, to + n * t
        if hi > 2 ** 32 - 1:
            hi = 2 ** 32 - 1
            if lo > hi:
                to, t = 0, 64
                lo, hi = (n - 1) * t + 1, n * t
        siz = ch.int(lo, hi)
        # image offset inside the first tile
        o_hi = min(siz - 1, to + t - 1)
        o = to if ch.p(60) else ch.int(to, o_hi)
        res.append((siz, o, t, to))
    (xs, xo, xt, xto), (ys, yo, yt, yto) = res
    return xs, ys, xo, yo, xt, yt, xto, yto


def gen_siz(ch, fmt, cfg, csiz, geo, depths=None):
    xs, ys, xo, yo, xt, yt, xto, yto = geo
    if fmt in ('jph', 'jhc'):
        rsiz = 0x4000 | (ch.n(0x1000) if ch.p(30) else 0)
        if ch.p(3):
            rsiz |= 0x8000
    else:
        rsiz = 0
        if ch.p(60):
            rsiz = ch.pick([1, 2, 3, 4, 5, 6, 7, 0x0fff])
            if ch.p(50):
                rsiz = (ch.n(16) << 8) | (ch.n(16) << 4) | ch.n(16)
    kids = [F('siz.rsiz', 2, rsiz)]
    for nm, v in zip(('xsiz', 'ysiz', 'xOsiz', 'yOsiz', 'xTsiz', 'yTsiz', 'xTOsiz', 'yTOsiz'),
                     (xs, ys, xo, yo, xt, yt, xto, yto)):
        kids.append(F('siz.' + nm, 4, v))
    kids.append(F('siz.csiz', 2, csiz))
    for i in range(csiz):
        kids.append(F('siz.ssiz', 1, depths[i]))
        if csiz > 20:
            kids.append(F('siz.xRsiz', 1, 1 + i % 255))
            kids.append(F('siz.yRsiz', 1, 255 - i % 255))
        else:
            kids.append(F('siz.xRsiz', 1, ch.int(1, 255)))
            kids.append(F('siz.yRsiz', 1, ch.int(1, 255)))
    return Seg(b'\xff\x51', 'siz', kids)


def gen_blockstyle(ch, fmt):
    if fmt in ('jph', 'jhc'):
        return ch.pick([64, 0, 192, 64 | 8, 64 | 13, 1, 63, 64 | 63, 192 | 21, 127, 128 | 5])
    return ch.pick([0, 1, 2, 4, 8, 16, 32, 63, 5, 42])


def gen_levels(ch):
    return ch.pick([0, 1, 2, 3, 5, 6, 32, 31, ch.int(0, 32)])


def gen_spcod(ch, fmt, nm, levels, precincts):
    w = ch.n(9)
    h = ch.n(9 - w)
    if ch.p(50):
        w, h = h, w
    kids = [F(nm + '.levels', 1, levels), F(nm + '.cbw', 1, w), F(nm + '.cbh', 1, h),
            F(nm + '.cbstyle', 1, gen_blockstyle(ch, fmt)), F(nm + '.transf', 1, ch.n(2))]
    if precincts:
        for i in range(levels + 1):
            if i == 0:
                v = (ch.n(16) << 4) | ch.n(16)
            else:
                v = ((1 + ch.n(15)) << 4) | (1 + ch.n(15))
            kids.append(F(nm + '.precinct', 1, v))
    return kids


def gen_cod(ch, fmt, levels=None):
    precincts = ch.n(2)
    if levels is None:
        levels = gen_levels(ch)
    if levels > 12 and precincts and not ch.p(30):
        levels = ch.n(8)
    scod = precincts | (ch.n(2) << 1) | (ch.n(2) << 2)
    kids = [F('cod.scod', 1, scod), F('cod.order', 1, ch.n(5)), F('cod.layers', 2, ch.int(1, 65535)),
            F('cod.mct', 1, ch.n(2))]
    return Seg(b'\xff\x52', 'cod', kids + gen_spcod(ch, fmt, 'cod', levels, precincts))


def cidx(nm, csiz, v):
    return F(nm, 1 if csiz < 257 else 2, v)


def gen_comp(ch, csiz):
    # component index; bounded by field width so that it is representable
    return ch.n(csiz)


def gen_coc(ch, fmt, csiz, comp):
    precincts = ch.n(2)
    levels = ch.n(7) if not ch.p(15) else gen_levels(ch)
    kids = [cidx('coc.ccoc', csiz, comp), F('coc.scoc', 1, precincts)]
    return Seg(b'\xff\x53', 'coc', kids + gen_spcod(ch, fmt, 'coc', levels, precincts))


def gen_quant(ch, nm, levels=None):
    style = ch.n(3)
    guard = ch.n(8)
    kids = [F(nm + '.sq', 1, style | (guard << 5))]
    if levels is None:
        levels = gen_levels(ch) if ch.p(20) else ch.n(7)
    if style == 0:
        for _ in range(3 * levels + 1):
            kids.append(F(nm + '.spq', 1, ch.n(32) << 3))
    elif style == 1:
        kids.append(F(nm + '.spq', 2, ch.n(65536)))
    else:
        for _ in range(3 * levels + 1):
            kids.append(F(nm + '.spq', 2, ch.n(65536)))
    return kids


def gen_qcd(ch):
    return Seg(b'\xff\x5c', 'qcd', gen_quant(ch, 'qcd'))


def gen_qcc(ch, csiz, comp):
    return Seg(b'\xff\x5d', 'qcc', [cidx('qcc.cqcc', csiz, comp)] + gen_quant(ch, 'qcc'))


def gen_rgn(ch, fmt, csiz):
    hi = 37 if fmt in ('jph', 'jhc') else 255
    return Seg(b'\xff\x5e', 'rgn', [cidx('rgn.crgn', csiz, gen_comp(ch, csiz)), F('rgn.style', 1, 0),
                                    F('rgn.shift', 1, ch.int(0, hi))])


def gen_poc(ch, csiz):
    kids = []
    for _ in range(ch.small(1, 6)):
        rs = ch.int(0, 32)
        if csiz < 257:
            cs = ch.int(0, 255)
            ce = 0 if cs == 255 or ch.p(20) else ch.int(cs + 1, 255)
        else:
            cs = ch.int(0, 16383)
            ce = 0 if ch.p(20) else ch.int(cs + 1, 16384)
        kids += [F('poc.rspoc', 1, rs), cidx('poc.cspoc', csiz, cs), F('poc.lyepoc', 2, ch.int(1, 65535)),
                 F('poc.repoc', 1, ch.int(rs + 1, 33)), cidx('poc.cepoc', csiz, ce), F('poc.order', 1, ch.n(5))]
    return Seg(b'\xff\x5f', 'poc', kids)


def gen_crg(ch, csiz):
    kids = []
    for _ in range(csiz):
        kids += [F('crg.xcrg', 2, ch.n(65536)), F('crg.ycrg', 2, ch.n(65536))]
    return Seg(b'\xff\x63', 'crg', kids)


LATIN = [c for c in range(256) if (32 <= c < 127 or c >= 0xa0 or c in (9, 10, 13)) and c != 0xad]


def gen_com(ch):
    n = ch.pick([1, 2, 5, 20, 60])
    if ch.p(3):
        n = ch.pick([4000, 65531])
    if ch.p(35):
        d = ch.blob(n)
        return Seg(b'\xff\x64', 'com', [F('com.rcom', 2, 0), R('com.bin', d)])
    if ch.p(40):
        d = ch.pick([b'Kakadu-v7.2.2', b'Created by OpenJPEG version 2.3.0', b'Aware-v3.18.0.1', b'x-v', b'-v1.', b'Kakadu-v7.A.7-v2'])
    else:
        d = bytes(LATIN[b % len(LATIN)] for b in ch.blob(n))
    return Seg(b'\xff\x64', 'com', [F('com.rcom', 2, 1), R('com.txt', d)])


def gen_cap(ch, fmt):
    parts = set()
    for p in range(1, 33):
        if ch.p(6):
            parts.add(p)
    if fmt in ('jph', 'jhc'):
        parts.add(15)
    elif not parts:
        parts.add(1 + ch.n(32))
    pcap = 0
    for p in parts:
        pcap |= 1 << (32 - p)
    kids = [F('cap.pcap', 4, pcap)]
    for p in sorted(parts):
        v = ch.n(65536)
        if p == 15:
            v = (ch.pick([0, 2, 3, 1]) << 14) | (ch.n(8) << 11) | (ch.n(2) << 5) | (ch.n(32)) | (ch.pick([0, 0, 0x7c0 & 0x3c0]))
        kids.append(F('cap.ccap%d' % (15 if p == 15 else 0), 2, v))
    return Seg(b'\xff\x50', 'cap', kids)


def gen_prf(ch, cpf=False):
    nm = 'cpf' if cpf else 'prf'
    n = ch.small(1, 5)
    kids = [F(nm + '.p', 2, ch.n(65536)) for _ in range(n - 1)]
    kids.append(F(nm + '.p', 2, ch.int(1, 65535)))
    return Seg(b'\xff\x59' if cpf else b'\xff\x56', nm, kids)


def enc_packet_length(v):
    out = [v & 0x7f]
    v >>= 7
    while v:
        out.append((v & 0x7f) | 0x80)
        v >>= 7
    return bytes(reversed(out))


def gen_lengths(ch, n):
    out = []
    for _ in range(n):
        k = ch.n(5)
        out.append(ch.int(0, [127, 16383, 2 ** 21 - 1, 2 ** 28 - 1, 2 ** 32 - 1][k]))
    return out


def gen_plt(ch, z=0):
    ls = gen_lengths(ch, ch.small(0, 10))
    s = Seg(b'\xff\x58', 'plt', [F('plt.zplt', 1, z), R('plt.ipl', b''.join(map(enc_packet_length, ls)))])
    s.lengths = ls
    return s


def gen_plm(ch, z=0):
    ls = gen_lengths(ch, ch.small(0, 8))
    d = b''.join(map(enc_packet_length, ls))
    s = Seg(b'\xff\x57', 'plm', [F('plm.zplm', 1, z), F('plm.nplm', 1, min(255, len(d))), R('plm.ipl', d)])
    s.lengths = ls
    return s


def gen_opaque_seg(ch, code, nm):
    return Seg(code, nm, [R(nm + '.raw', ch.blob(ch.pick([2, 1, 5, 30])))])


def gen_tile_headers(ch, fmt, csiz, first, cfg):
    segs = []
    if not ch.p(35 if cfg.many else 10):
        return segs
    if first:
        if ch.p(30):
            segs.append(gen_cod(ch, fmt))
        if ch.p(30):
            comps = sorted(set(gen_comp(ch, csiz) for _ in range(1 + ch.n(3))))
            segs += [gen_coc(ch, fmt, csiz, c) for c in comps]
        if ch.p(30):
            segs.append(gen_qcd(ch))
        if ch.p(30):
            comps = sorted(set(gen_comp(ch, csiz) for _ in range(1 + ch.n(3))))
            segs += [gen_qcc(ch, csiz, c) for c in comps]
        if ch.p(25):
            segs += [gen_rgn(ch, fmt, csiz) for _ in range(1 + ch.n(2))]
    if ch.p(25):
        segs.append(gen_poc(ch, csiz))
    if ch.p(35):
        segs += [gen_plt(ch, z) for z in range(1 + ch.n(3))]
    if ch.p(25):
        segs += [gen_opaque_seg(ch, b'\xff\x61', 'ppt') for _ in range(1 + ch.n(2))]
    if ch.p(35):
        segs += [gen_com(ch) for _ in range(1 + ch.n(2))]
    return ch.shuffle(segs)


def gen_tileparts(ch, fmt, csiz, ntiles, cfg):
    queues = []
    for t in range(ntiles):
        k = 1
        if ch.p(45):
            k = 1 + ch.n(cfg.max_parts)
            if ch.p(2) and ntiles <= 2:
                k = ch.pick([12, 100, 255]) if cfg.max_parts > 2 else 4
        mode = ch.pick(['all', 'none', 'last', 'first'])
        q = []
        for i in range(k):
            tn = k if (mode == 'all' or (mode == 'last' and i == k - 1) or (mode == 'first' and i == 0)) else 0
            q.append((t, i, tn))
        queues.append(q)
    order = []
    if ch.p(40):
        # interleave
        live = [q[:] for q in queues]
        while live:
            j = ch.n(len(live))
            order.append(live[j].pop(0))
            if not live[j]:
                live.pop(j)
    else:
        for q in ch.shuffle(queues) if ch.p(30) else queues:
            order += q
    tps = []
    for n, (t, i, tn) in enumerate(order):
        hdr = gen_tile_headers(ch, fmt, csiz, i == 0, cfg) if len(order) < 40 else []
        dl = ch.n(cfg.data) if len(order) < 40 else n % 5
        data = cs_data(ch, dl) if dl else b''
        tp = TP(F('sot.isot', 2, t), F('sot.tpsot', 1, i), F('sot.tnsot', 1, tn),
                hdr + [Mark(b'\xff\x93', 'sod'), R('data', data)])
        if n == len(order) - 1 and ch.p(30):
            tp.psot = 0
        tps.append(tp)
    return tps


def gen_depths(ch, csiz):
    """ssiz bytes; returns (list, varying)."""
    if ch.p(35) and csiz > 1:
        if csiz > 20:
            s = ch.n(1 << 16)
            ds = [((i * 7 + s) % 38) | (((i + s) % 3 == 0) << 7) for i in range(csiz)]
        else:
            ds = [(ch.n(2) << 7) | ch.int(0, 37) for _ in range(csiz)]
        return ds
    d = (ch.n(2) << 7) | ch.int(0, 37)
    return [d] * csiz


def gen_csiz(ch, cfg):
    if cfg.max_csiz >= 257 and ch.p(cfg.big_csiz):
        return ch.pick([257, 256, 258, 255, cfg.max_csiz])
    return 1 + ch.n(4) if not ch.p(5) else ch.int(1, 40)


class CS(Cont):
    pass


def gen_codestream(ch, fmt, cfg=Cfg):
    csiz = gen_csiz(ch, cfg)
    geo = gen_geometry(ch, cfg)
    depths = gen_depths(ch, csiz)
    siz = gen_siz(ch, fmt, cfg, csiz, geo, depths)
    ntiles = ceil_div(geo[0] - geo[6], geo[4]) * ceil_div(geo[1] - geo[7], geo[5])
    rsiz = siz.kids[0].val
    segs = [gen_cod(ch, fmt), gen_qcd(ch)]
    opt = []
    need_cap = (rsiz >> 14) == 1
    if need_cap or (fmt in ('jph', 'jhc')) or ch.p(4):
        segs.insert(0, gen_cap(ch, fmt))
    if cfg.many and ch.p(70):
        if ch.p(25):
            comps = ch.shuffle(sorted(set(gen_comp(ch, csiz) for _ in range(1 + ch.n(3)))))
            opt += [gen_coc(ch, fmt, csiz, c) for c in comps]
        if ch.p(25):
            comps = ch.shuffle(sorted(set(gen_comp(ch, csiz) for _ in range(1 + ch.n(3)))))
            opt += [gen_qcc(ch, csiz, c) for c in comps]
        if ch.p(20):
            opt += [gen_rgn(ch, fmt, csiz) for _ in range(1 + ch.n(2))]
        if ch.p(20):
            opt.append(gen_poc(ch, csiz))
        if ch.p(15):
            opt.append(gen_crg(ch, csiz))
        if ch.p(40):
            opt += [gen_com(ch) for _ in range(1 + ch.n(3))]
        if ch.p(12):
            opt.append(gen_prf(ch))
        if ch.p(12):
            opt.append(gen_prf(ch, cpf=True))
        if ch.p(12):
            opt += [gen_opaque_seg(ch, b'\xff\x55', 'tlm') for _ in range(1 + ch.n(2))]
        if ch.p(12):
            opt += [gen_plm(ch, z) for z in range(1 + ch.n(2))]
        if ch.p(12):
            opt += [gen_opaque_seg(ch, b'\xff\x60', 'ppm') for _ in range(1 + ch.n(2))]
    allsegs = segs + opt
    if ch.p(30):
        allsegs = ch.shuffle(allsegs)
    cs = CS('codestream', [Mark(b'\xff\x4f', 'soc'), siz] + allsegs
            + gen_tileparts(ch, fmt, csiz, ntiles, cfg) + [Mark(b'\xff\xd9', 'eoc')])
    cs.csiz, cs.geo, cs.depths = csiz, geo, depths
    return cs


# ---------------------------------------------------------------- boxes

def bx(typ, name, *kids):
    return Box(typ, name, list(kids))


BRANDS = [b'jpx ', b'jpm ', b'mjp2', b'J2P0', b'J2P1', b'\x00\x01\x02\x03', b'\xff\xfe\xc3\x28', b'abcd']


def brand_of(fmt):
    return b'jp2 ' if fmt == 'jp2' else b'jph '


def R4(name, b):
    return F(name, 4, int.from_bytes(b, 'big'))


def gen_ftyp(ch, fmt):
    me = brand_of(fmt)
    cl = [me] + [ch.pick(BRANDS + [b'jp2 ', b'jph ']) for _ in range(ch.small(0, 4))]
    cl = ch.shuffle(cl)
    return bx(b'ftyp', 'ftyp', R4('ftyp.br', me), F('ftyp.minV', 4, 0), *[R4('ftyp.cl', c) for c in cl])


def gen_ihdr(ch, height, width, nc, bpc, unkc, ipr):
    return bx(b'ihdr', 'ihdr', F('ihdr.height', 4, height), F('ihdr.width', 4, width), F('ihdr.nC', 2, nc),
              F('ihdr.bPC', 1, bpc), F('ihdr.c', 1, 7), F('ihdr.unkC', 1, unkc), F('ihdr.iPR', 1, ipr))


ICC_CLASSES = [b'scnr', b'mntr', b'prtr', b'link', b'spac', b'abst', b'nmcl', b'xxxx']
ICC_PLAT = [b'APPL', b'MSFT', b'SUNW', b'SGI ', b'\0\0\0\0', b'*nix']
ICC_TAGS = [b'wtpt', b'rXYZ', b'gXYZ', b'bXYZ', b'rTRC', b'gTRC', b'bTRC', b'cprt', b'dmnd', b'A2B1', b'B2A0']


def gen_icc(ch, restricted):
    cls = ch.pick(ICC_CLASSES[:2] if restricted else ICC_CLASSES)
    tags = [ch.pick(ICC_TAGS) for _ in range(ch.small(0, 8))]
    if not restricted and ch.p(20):
        tags.append(b'A2B0')
    desc = None
    if ch.p(70):
        desc = ch.pick([b'sRGB IEC61966-2.1', b'eciRGB v2', b'A', b'', b'Gr\xc3\xa4y'])
        tags.insert(ch.n(len(tags) + 1), b'desc')
    body_off = 132 + 12 * len(tags)
    blob = b''
    entries = []
    for t in tags:
        off = body_off + len(blob)
        if t == b'desc' and desc is not None:
            d = b'desc\0\0\0\0' + (len(desc) + 1).to_bytes(4, 'big') + desc + b'\0' + bytes(ch.n(4))
        else:
            d = ch.blob(ch.pick([4, 8, 12, 20]))
        entries.append((t, off, len(d)))
        blob += d
    k = []
    k.append(F('icc.size', 4, body_off + len(blob)))
    k.append(R4('icc.cmm', ch.pick([b'lcms', b'ADBE', b'\0\0\0\0', b'appl'])))
    k.append(F('icc.major', 1, ch.pick([2, 4, ch.n(256)])))
    k.append(F('icc.minor', 1, ch.n(256)))
    k.append(F('icc.res', 2, 0))
    k.append(R4('icc.class', cls))
    k.append(R4('icc.space', ch.pick([b'RGB ', b'GRAY', b'XYZ ', b'Lab '])))
    k.append(R4('icc.pcs', ch.pick([b'XYZ ', b'Lab '])))
    for nm, lo, hi in (('year', 1990, 2099), ('month', 1, 12), ('day', 1, 31), ('hour', 0, 23), ('min', 0, 59), ('sec', 0, 59)):
        k.append(F('icc.' + nm, 2, ch.int(lo, hi)))
    k.append(R4('icc.acsp', b'acsp'))
    k.append(R4('icc.plat', ch.pick(ICC_PLAT)))
    k.append(F('icc.flags', 4, ch.n(256) << 24 | ch.n(4)))
    k.append(R4('icc.manu', ch.pick([b'IEC ', b'EPSO', b'\0\0\0\0'])))
    k.append(R4('icc.model', ch.pick([b'sRGB', b'\0\0\0\0', b'\xe9\xe8\xe7\xe6'])))
    k.append(F('icc.attr', 8, ch.n(256) << 56))
    k.append(F('icc.intent', 4, ch.n(4)))
    for a in 'XYZ':
        k.append(F('icc.ill' + a, 4, ch.pick([0xf6d6, 0x10000, 0xd32d, ch.n(1 << 32)])))
    k.append(R4('icc.creator', ch.pick([b'lcms', b'HP  ', b'\0\0\0\0'])))
    k.append(R('icc.id', ch.blob(16)))
    k.append(R('icc.pad', bytes(28)))
    k.append(F('icc.tagcount', 4, len(tags)))
    for t, o, s in entries:
        k += [R4('icc.tag', t), F('icc.tagoff', 4, o), F('icc.tagsize', 4, s)]
    k.append(R('icc.body', blob))
    return Cont('icc', k)


COLPRIMS = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22]
TRANSFC = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]
MATCOEFFS = [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]


def gen_colr(ch, fmt, meth=None):
    if meth is None:
        meth = ch.pick([1, 1, 2] if fmt == 'jp2' else [1, 2, 3, 5])
    kids = [F('colr.meth', 1, meth), F('colr.prec', 1, 0), F('colr.approx', 1, 0)]
    if meth == 1:
        kids.append(F('colr.enumCS', 4, ch.pick([16, 17, 18])))
    elif meth in (2, 3):
        kids.append(gen_icc(ch, meth == 2))
    elif meth == 5:
        kids += [F('colr.colPrims', 2, ch.pick(COLPRIMS)), F('colr.transfC', 2, ch.pick(TRANSFC)),
                 F('colr.matCoeffs', 2, ch.pick(MATCOEFFS)), F('colr.vidFRng', 1, ch.pick([0, 128, 127, 255]))]
    return Box(b'colr', 'colr', kids)


def gen_pclr(ch):
    ne = ch.pick([1, 2, 3, 16, 256]) if not ch.p(3) else 1024
    npc = 1 + ch.n(4)
    if ch.p(2):
        ne, npc = 2, 255
    bs = [(ch.n(2) << 7) | ch.int(0, 37) for _ in range(npc)]
    if ch.p(50):
        bs = [bs[0]] * npc
    kids = [F('pclr.nE', 2, ne), F('pclr.nPC', 1, npc)] + [F('pclr.B', 1, b) for b in bs]
    total = sum(((b & 127) + 8) // 8 for b in bs) * ne
    kids.append(R('pclr.C', ch.blob(total)))
    return Box(b'pclr', 'pclr', kids), npc


def gen_cmap(ch, npc, csiz):
    kids = []
    for i in range(ch.pick([npc, 1, npc + 1])):
        mtyp = ch.n(2)
        kids += [F('cmap.cMP', 2, ch.int(0, 16384) if ch.p(20) else 0), F('cmap.mTyp', 1, mtyp),
                 F('cmap.pCol', 1, ch.int(0, 255) if mtyp else 0)]
    return Box(b'cmap', 'cmap', kids)


def gen_cdef(ch, fmt, nozero=False):
    n = ch.small(1, 6)
    if ch.p(2):
        n = 300
    kids = [F('cdef.n', 2, n)]
    alpha = False
    for i in range(n):
        types = [0, 65535, 1, 2] if fmt != 'jph' else [0, 65535, 3, 1, 2]
        if nozero:
            types = types[1:]
        t = ch.pick(types)
        a = ch.pick([0, 1, 2, 3, 65535, ch.int(0, 65535)])
        if fmt == 'jph' and t in (1, 2):
            if alpha:
                t = 65535
            else:
                alpha, a = True, 0
        kids += [F('cdef.cN', 2, ch.int(0, 65535) if ch.p(30) else i), F('cdef.cTyp', 2, t), F('cdef.cAssoc', 2, a)]
    return Box(b'cdef', 'cdef', kids)


def gen_resx(ch, typ, nm):
    e = lambda: ch.pick([0, 1, 2, 3, 4, 5, 256 - 2, 256 - 5, ch.n(256)])
    kids = [F(nm + '.vN', 2, ch.int(1, 65535)), F(nm + '.vD', 2, ch.int(1, 65535)),
            F(nm + '.hN', 2, ch.int(1, 65535)), F(nm + '.hD', 2, ch.int(1, 65535)),
            F(nm + '.vE', 1, e()), F(nm + '.hE', 1, e())]
    return Box(typ, nm, kids)


def gen_res(ch, unknown=True):
    k = ch.n(4)
    kids = []
    if k in (0, 2, 3):
        kids.append(gen_resx(ch, b'resc', 'resc'))
    if k in (1, 2, 3):
        kids.append(gen_resx(ch, b'resd', 'resd'))
    if k == 3:
        kids.reverse()
    if unknown and ch.p(8):
        kids.append(gen_unknown(ch))
    return Box(b'res ', 'res', kids)


def gen_unknown_type(ch):
    base = [b'test', b'free', b'skip', b'asoc', b'nlst', b'JP2C', b'xml\0', b'ab\x01c', b'\xff\x52\xff\x52', b'\xc3\xa9ab', b'\0\0\0\0',
            b'jp2H', b'abcd', b'fred', b'mdat', b'\xff\x90\0\0', b'uuiD', b'<&">', b']]> ']
    if ch.p(30):
        t = ch.blob(4)
        if t in KNOWN_TYPES:
            t = b'zzzz'
        return t
    return ch.pick(base)


def gen_unknown(ch):
    n = ch.pick([0, 1, 4, 8, 30])
    d = ch.blob(n)
    if ch.p(15):
        d = ch.pick([b'\xff\x4f\xff\x51', b'\0\0\0\x08jp2c', b'\0\0\0\x0cjP  \r\n\x87\n', b'\xff\xd9'])
    return Box(gen_unknown_type(ch), 'unknown', [R('unknown.raw', d)])


def gen_uuid(ch):
    if ch.p(40):
        return Box(b'uuid', 'uuid', [R('uuid.id', XMP_UUID), R('uuid.xmp', xmlgen.gen_xml(ch)[0])])
    u = ch.blob(16)
    if u == XMP_UUID:
        u = bytes(16)
    if ch.p(10):
        u = XMP_UUID[:15] + b'\xad'
    return Box(b'uuid', 'uuid', [R('uuid.id', u), R('uuid.data', ch.blob(1 + ch.n(30)))])


def gen_xmlbox(ch):
    return Box(b'xml ', 'xml', [R('xml.data', xmlgen.gen_xml(ch)[0])])


def gen_uinf(ch):
    n = ch.pick([1, 0, 2, 5])
    ulst = Box(b'ulst', 'ulst', [F('ulst.nU', 2, n)] + [R('ulst.id', ch.blob(16)) for _ in range(n)])
    loc = ch.pick([b'', b'http://www.example.org/a?b=c&d=e', 'http://ex.org/\u00e9\u4e2d'.encode('utf-8'), b'x' * 300])
    url = Box(b'url ', 'url', [F('url.version', 1, 0), F('url.flag', 3, 0), R('url.loc', loc + b'\0')])
    kids = [ulst, url]
    if ch.p(20):
        kids.reverse()
    if ch.p(8):
        kids.append(gen_unknown(ch))
    return Box(b'uinf', 'uinf', kids)


def gen_ipr(ch):
    return Box(b'jp2i', 'jp2i', [R('jp2i.raw', ch.blob(ch.n(20)))])


def gen_jp2h(ch, fmt, cs, cfg, ipr):
    xs, ys, xo, yo = cs.geo[:4]
    vary = len(set(cs.depths)) > 1
    usebpcc = vary or ch.p(10)
    bpc = 255 if usebpcc else cs.depths[0]
    unkc = ch.n(2)
    ihdr = gen_ihdr(ch, ys - yo, xs - xo, cs.csiz, bpc, unkc, ipr)
    rest = []
    if usebpcc:
        rest.append(Box(b'bpcc', 'bpcc', [F('bpcc.bPC', 1, d) for d in cs.depths]))
    ncol = 1
    if fmt == 'jph' and unkc == 1 and ch.p(40):
        ncol = 0
    elif ch.p(15):
        ncol = 2 + ch.n(2)
    colrs = [gen_colr(ch, fmt) for _ in range(ncol)]
    if colrs:
        rest.append(Cont('colrs', colrs))
    if cfg.many:
        if ch.p(15):
            p, npc = gen_pclr(ch)
            rest += [p, gen_cmap(ch, npc, cs.csiz)]
        if ch.p(20):
            rest.append(gen_cdef(ch, fmt, nozero=(ncol == 0)))
        if ch.p(30):
            rest.append(gen_res(ch))
        if ch.p(5):
            rest.append(gen_unknown(ch))
        if ch.p(3):
            rest.append(gen_xmlbox(ch))
    if ch.p(30):
        rest = ch.shuffle(rest)
    flat = []
    for r in rest:
        if isinstance(r, Cont) and r.name == 'colrs':
            flat += r.kids
        else:
            flat.append(r)
    return Box(b'jp2h', 'jp2h', [ihdr] + flat)


def gen_meta(ch):
    k = ch.n(5)
    if k == 0:
        return gen_xmlbox(ch)
    if k == 1:
        return gen_uuid(ch)
    if k == 2:
        return gen_uinf(ch)
    if k == 3:
        return gen_unknown(ch)
    return gen_uuid(ch)


def set_lmodes(ch, root):
    """Random length encodings."""
    if not ch.p(25):
        return
    for n, par, i in list(walk(root)):
        if isinstance(n, Box):
            n.lmode = ch.pick(['l', 'x', '0', 'l'])


class File(Cont):
    pass


def gen_file(ch, fmt, cfg=Cfg, lmodes=True):
    """A conforming file of the given format."""
    if fmt in ('j2c', 'jhc'):
        cs = gen_codestream(ch, fmt, cfg)
        f = File('file', [cs])
        f.cs = cs
        f.fmt = fmt
        return f
    cs = gen_codestream(ch, fmt, cfg)
    ipr = 1 if ch.p(15) else 0
    kids = [bx(b'jP  ', 'jP', F('jP.sig', 4, 0x0d0a870a)), gen_ftyp(ch, fmt)]
    pre, mid, post = [], [], []
    if cfg.many:
        for lst in (pre, mid, post):
            if ch.p(20):
                lst += [gen_meta(ch) for _ in range(1 + ch.n(2))]
    if ipr:
        ch.pick([pre, mid, post]).append(gen_ipr(ch))
    kids += pre + [gen_jp2h(ch, fmt, cs, cfg, ipr)] + mid + [Box(b'jp2c', 'jp2c', [cs])]
    if ch.p(4):
        kids.append(Box(b'jp2c', 'jp2c', [gen_codestream(ch, fmt, cfg)]))
    kids += post
    f = File('file', kids)
    if lmodes:
        set_lmodes(ch, f)
    f.cs = cs
    f.fmt = fmt
    return f


# ---------------------------------------------------------------- perturbation

def field_value(ch, f):
    """A new value for a field."""
    m = (1 << (8 * f.size)) - 1
    k = ch.n(8)
    if k == 0:
        return (f.val + 1) & m
    if k == 1:
        return (f.val - 1) & m
    if k == 2:
        return f.val ^ (1 << ch.n(8 * f.size))
    if k == 3:
        return ch.pick([0, 1, 2, m, m - 1, m >> 1, (m >> 1) + 1])
    if k == 4 and f.size == 1:
        return ch.n(256)
    if k == 5:
        return ch.n(min(m + 1, 64))
    return ch.int(0, m)


STRUCT_OPS = ('dup', 'del', 'swap', 'move', 'insert')
ELEMENT_TYPES = ('boxes', 'segs')


def gen_any_seg(ch, fmt, csiz):
    k = ch.n(15)
    return [lambda: gen_cod(ch, fmt), lambda: gen_coc(ch, fmt, csiz, gen_comp(ch, csiz)), lambda: gen_qcd(ch),
            lambda: gen_qcc(ch, csiz, gen_comp(ch, csiz)), lambda: gen_rgn(ch, fmt, csiz), lambda: gen_poc(ch, csiz),
            lambda: gen_crg(ch, csiz), lambda: gen_com(ch), lambda: gen_cap(ch, fmt), lambda: gen_prf(ch),
            lambda: gen_prf(ch, True), lambda: gen_plt(ch), lambda: gen_plm(ch),
            lambda: gen_opaque_seg(ch, ch.pick([b'\xff\x55', b'\xff\x60', b'\xff\x61', b'\xff\x74', b'\xff\x30']), 'opq'),
            lambda: gen_opaque_seg(ch, b'\xff\x91', 'sop')][k]()


def gen_any_box(ch, fmt):
    k = ch.n(14)
    return [lambda: gen_unknown(ch), lambda: gen_colr(ch, fmt), lambda: gen_res(ch), lambda: gen_cdef(ch, fmt),
            lambda: gen_pclr(ch)[0], lambda: gen_cmap(ch, 1, 1), lambda: gen_uuid(ch), lambda: gen_uinf(ch),
            lambda: gen_xmlbox(ch), lambda: gen_ipr(ch), lambda: gen_ftyp(ch, 'jp2'),
            lambda: bx(b'jP  ', 'jP', F('jP.sig', 4, 0x0d0a870a)),
            lambda: Box(b'bpcc', 'bpcc', [F('bpcc.bPC', 1, ch.n(256)) for _ in range(ch.n(5))]),
            lambda: gen_resx(ch, ch.pick([b'resc', b'resd']), 'resx')][k]()


def perturb_field(ch, root, only=None):
    fs = fields(root)
    if only:
        fs = [f for f in fs if only(f.name)]
    if not fs:
        return None
    names = sorted(set(f.name for f in fs))
    nm = ch.pick(names)
    cand = [f for f in fs if f.name == nm]
    f = cand[ch.n(len(cand))]
    old = f.val
    f.val = field_value(ch, f)
    if f.name in ('siz.csiz', 'cdef.n') and f.val > 1200 and not ch.p(3):
        f.val %= 1200           # large counts are slow to analyse
    return 'field %s %d->%d' % (nm, old, f.val)


def perturb_struct(ch, root, only=None):
    cs = [c for c in containers(root) if isinstance(c, (Box, CS, TP, File)) and c.kids and (only is None or only(c))]
    cs = [c for c in cs if not (isinstance(c, Box) and c.name in ('jp2c',))]
    if not cs:
        return None
    names = sorted(set(c.name for c in cs))
    nm = ch.pick(names)
    cand = [c for c in cs if c.name == nm]
    c = cand[ch.n(len(cand))]
    op = ch.pick(STRUCT_OPS)
    i = ch.n(len(c.kids))
    if op == 'dup':
        c.kids.insert(ch.n(len(c.kids) + 1), c.kids[i])
    elif op == 'del':
        c.kids.pop(i)
    elif op == 'swap':
        j = ch.n(len(c.kids))
        c.kids[i], c.kids[j] = c.kids[j], c.kids[i]
    elif op == 'move':
        x = c.kids.pop(i)
        c.kids.insert(ch.n(len(c.kids) + 1), x)
    else:
        fmt = getattr(root, 'fmt', 'jp2')
        if isinstance(c, (CS, TP)):
            x = gen_any_seg(ch, fmt, getattr(getattr(root, 'cs', None), 'csiz', 1))
        else:
            x = gen_any_box(ch, fmt)
        c.kids.insert(i + ch.n(2), x)
    return '%s in %s at %d' % (op, nm, i)


def perturb_length(ch, root, only=None):
    """Wrong length fields, and contents cut or extended with consistent lengths."""
    cs = [c for c in containers(root) if isinstance(c, (Box, Seg, TP)) and (only is None or only(c))]
    if not cs:
        return None
    names = sorted(set(c.name for c in cs))
    nm = ch.pick(names)
    cand = [c for c in cs if c.name == nm]
    c = cand[ch.n(len(cand))]
    op = ch.n(3)
    if op == 0 and not isinstance(c, TP):
        # cut the contents, length consistent
        body = Cont.ser(c)
        k = ch.n(len(body) + 1)
        c.kids = [R('cut', body[:k])]
        return 'cut %s to %d' % (nm, k)
    if op == 1 and not isinstance(c, TP):
        c.kids = list(c.kids) + [R('ext', ch.blob(1 + ch.n(12)))]
        return 'extend %s' % nm
    # wrong length field
    if isinstance(c, Seg):
        ln = len(Cont.ser(c)) + 2
        c.length = ch.pick([ln - 1, ln + 1, ln - 2, ln + 2, 0, 1, 2, 3, 65535, ch.n(65536), ln + ch.n(20)])
        return 'length of %s := %d (was %d)' % (nm, c.length, ln)
    if isinstance(c, TP):
        ln = len(Cont.ser(c)) + 12
        if ch.p(30):
            c.lsot = ch.pick([9, 11, 8, 2, 4, 6, 0, 12, 65535])
            return 'lsot := %d' % c.lsot
        c.psot = ch.pick([ln - 1, ln + 1, 0, 1, 13, 12, 14, ln - 2, ln + 2, 2 ** 32 - 1, ch.n(2 ** 32), ln * 2])
        return 'psot := %d (was %d)' % (c.psot, ln)
    ln = len(Cont.ser(c)) + 8
    c.lbox = ch.pick([ln - 1, ln + 1, ln - 2, ln + 8, 0, 1, 2, 7, 8, 2 ** 32 - 1, ch.n(2 ** 32), ln + ch.n(40)])
    return 'LBox of %s := %d (was %d)' % (nm, c.lbox, ln)


def mutate_bytes(ch, data):
    """Byte-level damage."""
    d = bytearray(data)
    for _ in range(ch.small(1, 6)):
        if not d:
            break
        k = ch.n(6)
        i = ch.n(len(d))
        if k == 0:
            d[i] ^= 1 << ch.n(8)
        elif k == 1:
            d[i] = ch.n(256)
        elif k == 2:
            j = min(len(d), i + 1 + ch.n(8))
            del d[i:j]
        elif k == 3:
            d[i:i] = ch.blob(1 + ch.n(8))
        elif k == 4:
            del d[i:]
        else:
            j = ch.n(len(d))
            n = 1 + ch.n(16)
            d[i:i + n] = d[j:j + n]
    return bytes(d)
