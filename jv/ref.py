"""Reference model: what the report on a file has to say, written from the user
manual and ISO/IEC 15444-1/-15.  It shares no code with the tool.

analyse(data, fmt) -> Result with
  tests  : expected verbose test tree (leaves 'True' / 'False' / WILD)
  props  : expected property tree (leaves str / Num / WILD)
  warns  : list of expected unknown-box types (in document order)
Undecodable values (field cut off) are reported as -9999 by the tool; values that
are derived from undecodable ones are not specified (WILD)."""
import uuid as _uuid
import unicodedata
import xml.etree.ElementTree as _ET
from decimal import Decimal
from fractions import Fraction

XMP = 'be7acfcb-97a9-42e8-9c71-999491e3afac'


class _Wild:
    def __repr__(self):
        return 'WILD'


WILD = _Wild()


class Num:
    """Number with tolerance."""

    def __init__(self, v, tol):
        self.v, self.tol = v, tol

    def __repr__(self):
        return 'Num(%s+-%s)' % (float(self.v), float(self.tol))


class T:
    """Tree node."""
    __slots__ = ('tag', 'text', 'kids', 'wild', 'attrib')

    def __init__(self, tag, text=None):
        self.tag, self.text, self.kids, self.wild, self.attrib = tag, text, [], False, None

    def add(self, tag, text=None):
        n = T(tag, text)
        self.kids.append(n)
        return n

    def find(self, *path):
        """First match of the path, as in 'a/b': first b of any a."""
        cur = [self]
        for p in path:
            cur = [k for c in cur for k in c.kids if k.tag == p]
        return cur[0] if cur else None

    def all(self, tag):
        return [k for k in self.kids if k.tag == tag]

    def dump(self, ind=0):
        s = '  ' * ind + self.tag + (' = ' + repr(self.text) if self.text is not None else '') + ('  *wild*' if self.wild else '')
        return '\n'.join([s] + [k.dump(ind + 1) for k in self.kids])


def clean(s):
    return ''.join(c for c in s if unicodedata.category(c)[0] != 'C' or c in '\t\n\r')


def btext(b):
    try:
        return clean(b.decode('utf-8'))
    except UnicodeDecodeError:
        return ''


YN = {0: 'no', 1: 'yes'}
SIGN = {0: 'unsigned', 1: 'signed'}
METH = {1: 'Enumerated', 2: 'Restricted ICC', 3: 'Any ICC', 4: 'Vendor Colour', 5: 'Parameterized Colourspace'}
ENUMCS = {16: 'sRGB', 17: 'greyscale', 18: 'sYCC'}
CLS = {b'scnr': 'Input Device Profile', b'mntr': 'Display Device Profile', b'prtr': 'Output Device Profile',
       b'link': 'DeviceLink Profile', b'spac': 'ColorSpace Conversion Profile', b'abst': 'Abstract Profile',
       b'nmcl': 'Named Colour Profile'}
PLAT = {b'APPL': 'Apple Computer, Inc.', b'MSFT': 'Microsoft Corporation', b'SGI ': 'Silicon Graphics, Inc.',
        b'SUNW': 'Sun Microsystems, Inc.'}
INTENT = {0: 'Perceptual', 1: 'Media-Relative Colorimetric', 2: 'Saturation', 3: 'ICC-Absolute Colorimetric'}
CTYP = {0: 'colour', 1: 'opacity', 2: 'premultiplied opacity', 3: 'application-defined', 65535: 'not specified'}
CASSOC = {0: 'all colours', 65535: 'no colours'}
ORDER = {0: 'LRCP', 1: 'RLCP', 2: 'RPCL', 3: 'PCRL', 4: 'CPRL'}
QSTYLE = {0: 'no quantization', 1: 'scalar derived', 2: 'scalar expounded'}
BOXNAME = {b'jp2i': 'intellectualPropertyBox', b'xml ': 'xmlBox', b'uuid': 'uuidBox', b'uinf': 'uuidInfoBox',
           b'jP  ': 'signatureBox', b'ftyp': 'fileTypeBox', b'jp2h': 'jp2HeaderBox', b'ihdr': 'imageHeaderBox',
           b'bpcc': 'bitsPerComponentBox', b'colr': 'colourSpecificationBox', b'pclr': 'paletteBox',
           b'cmap': 'componentMappingBox', b'cdef': 'channelDefinitionBox', b'res ': 'resolutionBox',
           b'jp2c': 'contiguousCodestreamBox', b'resc': 'captureResolutionBox', b'resd': 'displayResolutionBox',
           b'ulst': 'uuidListBox', b'url ': 'urlBox'}


def rd(b, off, n):
    s = b[off:off + n]
    return int.from_bytes(s, 'big') if len(s) == n else None


def within(v, lo, hi):
    return v is not None and lo <= v <= hi


class B:
    """Builder of one box / segment: tests, props."""

    def __init__(self, name):
        self.tests, self.props = T(name), T(name)

    def t(self, name, ok):
        self.tests.add(name, ok if ok is WILD else ('True' if ok else 'False'))

    def v(self, name, val, m=None):
        """Property of a directly stored value."""
        if val is None:
            txt = '-9999'
        elif val is WILD or isinstance(val, Num):
            txt = val
        elif m is not None and val in m:
            txt = m[val]
        elif isinstance(val, bytes):
            txt = btext(val)
        else:
            txt = str(Decimal(val)) if isinstance(val, int) else str(val)
        self.props.add(name, txt)

    def d(self, name, val, m=None):
        """Property derived from a stored value."""
        self.v(name, WILD if val is None else val, m)

    def sub(self, b):
        if b.tests.kids or b.tests.wild:
            self.tests.kids.append(b.tests)
        self.props.kids.append(b.props)


class Result:
    def __init__(self):
        self.tests = self.props = None
        self.warns = []
        self.valid = None       # True / False / None (not determined)
        self.cost = 0


class Ctx:
    def __init__(self, fmt, pm, nullxml):
        self.fmt, self.pm, self.nullxml = fmt, pm, nullxml
        self.jp2 = fmt == 'jp2'
        self.jph = fmt == 'jph'
        self.ht = fmt in ('jph', 'jhc')
        self.warns = []
        self.depth = 0


# ------------------------------------------------------------------ boxes

def split_boxes(data):
    """List of (type, contents) of a sequence of boxes."""
    out, pos, n = [], 0, len(data)
    while pos < n:
        ln = rd(data, pos, 4)
        typ = data[pos + 4:pos + 8]
        start = pos + 8
        if ln == 1:
            ln = rd(data, pos + 8, 8)
            start = pos + 16
        if ln is None:
            out.append((typ, b''))
            break
        if ln == 0:
            ln = n - pos
        out.append((typ, data[start:pos + ln] if pos + ln > start else b''))
        pos += ln
    return out


def box(typ, data, c):
    name = BOXNAME.get(typ)
    if name is None:
        b = B('unknownBox')
        b.v('boxType', typ)
        c.warns.append(typ)
        return b
    return HANDLERS[name](data, c)


def superbox(name, data, c):
    b = B(name)
    subs = split_boxes(data)
    for typ, d in subs:
        b.sub(box(typ, d, c))
    return b, [t for t, _ in subs]


def h_ipr(data, c):
    return B('intellectualPropertyBox')


def h_sig(data, c):
    b = B('signatureBox')
    b.t('boxLengthIsValid', len(data) == 4)
    b.t('signatureIsValid', data[:4] == b'\x0d\x0a\x87\x0a')
    return b


def h_ftyp(data, c):
    b = B('fileTypeBox')
    b.t('boxLengthIsValid', (len(data) - 8) % 4 == 0)
    br = data[:4]
    b.v('br', br)
    want = {'jp2': b'jp2 ', 'jph': b'jph '}.get(c.fmt)
    if want:
        b.t('brandIsValid', br == want)
    minv = rd(data, 4, 4)
    b.v('minV', minv)
    b.t('minorVersionIsValid', minv == 0)
    cl = [data[i:i + 4] for i in range(8, len(data) - 3, 4)]
    for x in cl:
        b.v('cL', x)
    if want:
        b.t('compatibilityListIsValid', want in cl)
    return b


def h_jp2h(data, c):
    b, types = superbox('jp2HeaderBox', data, c)
    b.t('containsImageHeaderBox', b'ihdr' in types)
    ih = b.props.find('imageHeaderBox')
    if c.jp2:
        b.t('containsColourSpecificationBox', b'colr' in types)
    elif c.jph:
        unk = ih.find('unkC').text if ih else None
        if unk == 'no':
            b.t('containsColourSpecificationBox', b'colr' in types)
        if b'colr' not in types:
            zero = any(k.text == 'colour' for cd in b.props.all('channelDefinitionBox') for k in cd.all('cTyp'))
            b.t('noZeroCTypesIfNoColourBox', not zero)
    if ih:
        if (ih.find('bPCSign').text, ih.find('bPCDepth').text) == ('signed', '128'):
            b.t('containsBitsPerComponentBox', b'bpcc' in types)
    b.t('firstJP2HeaderBoxIsImageHeaderBox', types[:1] == [b'ihdr'])
    for nm, ty in (('ImageHeaderBox', b'ihdr'), ('BitsPerComponentBox', b'bpcc'), ('PaletteBox', b'pclr'),
                   ('ComponentMappingBox', b'cmap'), ('ChannelDefinitionBox', b'cdef'), ('ResolutionBox', b'res ')):
        b.t('noMoreThanOne' + nm, types.count(ty) < 2)
    where = [i for i, x in enumerate(types) if x == b'colr']
    b.t('colourSpecificationBoxesAreContiguous', not where or where[-1] - where[0] == len(where) - 1)
    b.t('paletteAndComponentMappingBoxesOnlyTogether', (b'pclr' in types) == (b'cmap' in types))
    return b


def depth_of(v):
    return None if v is None else (v & 127) + 1


def sign_of(v):
    return None if v is None else v >> 7


def h_ihdr(data, c):
    b = B('imageHeaderBox')
    b.t('boxLengthIsValid', len(data) == 14)
    h, w, nc, bpc = rd(data, 0, 4), rd(data, 4, 4), rd(data, 8, 2), rd(data, 10, 1)
    cc, unk, ipr = rd(data, 11, 1), rd(data, 12, 1), rd(data, 13, 1)
    b.v('height', h)
    b.v('width', w)
    b.t('heightIsValid', within(h, 1, 2 ** 32 - 1))
    b.t('widthIsValid', within(w, 1, 2 ** 32 - 1))
    b.v('nC', nc)
    b.t('nCIsValid', within(nc, 1, 16384))
    b.d('bPCSign', sign_of(bpc), SIGN)
    b.d('bPCDepth', depth_of(bpc))
    b.t('bPCIsValid', bpc == 255 or within(depth_of(bpc), 1, 38))
    b.v('c', cc, {7: 'jpeg2000'})
    b.t('cIsValid', cc == 7)
    b.v('unkC', unk, YN)
    b.t('unkCIsValid', within(unk, 0, 1))
    b.v('iPR', ipr, YN)
    b.t('iPRIsValid', within(ipr, 0, 1))
    return b


def h_bpcc(data, c):
    b = B('bitsPerComponentBox')
    for x in data:
        b.v('bPCSign', x >> 7, SIGN)
        b.v('bPCDepth', (x & 127) + 1)
        b.t('bPCIsValid', (x & 127) + 1 <= 38)
    return b


COLPRIMS = {1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22}
TRANSFC = {1, 2} | set(range(4, 19))
MATCOEFFS = {0, 1, 2} | set(range(4, 15))


def h_colr(data, c):
    b = B('colourSpecificationBox')
    meth, prec, approx = rd(data, 0, 1), rd(data, 1, 1), rd(data, 2, 1)
    b.v('meth', meth, METH)
    if c.jp2:
        b.t('methIsValid', meth in (1, 2))
    elif c.jph:
        b.t('methIsValid', meth in (1, 2, 3, 5))
    b.v('prec', prec)
    b.t('precIsValid', prec == 0)
    b.v('approx', approx)
    b.t('approxIsValid', approx == 0)
    rest = data[3:]
    if meth == 1:
        e = rd(rest, 0, 4) if len(rest) == 4 else None
        b.v('enumCS', e, ENUMCS)
        b.t('enumCSIsValid', e in (16, 17, 18))
    elif meth in (2, 3):
        icc, size, cls, tags = icc_profile(rest)
        b.props.kids.append(icc)
        if meth == 2:
            b.t('iccSizeIsValid', size == len(rest))
            b.t('iccPermittedProfileClass', cls in (b'scnr', b'mntr'))
            b.t('iccNoLUTBasedProfile', b'A2B0' not in tags)
    elif meth == 5:
        for nm, off, ok in (('colPrims', 0, COLPRIMS), ('transfC', 2, TRANSFC), ('matCoeffs', 4, MATCOEFFS)):
            v = rd(rest, off, 2)
            b.v(nm, v)
            if c.jph:
                b.t(nm + 'IsValid', v in ok)
        v = rd(rest, 6, 1)
        b.d('vidFRng', None if v is None else v >> 7, YN)
    return b


def icc_profile(p):
    b = B('icc')
    size = rd(p, 0, 4)
    b.v('profileSize', size)
    b.v('preferredCMMType', p[4:8])
    ma, mi = rd(p, 8, 1), rd(p, 9, 1)
    b.d('profileVersion', None if None in (ma, mi) else '%d.%d.%d' % (ma, mi >> 4, mi & 15))
    b.v('profileClass', p[12:16], CLS)
    b.v('colourSpace', p[16:20])
    b.v('profileConnectionSpace', p[20:24])
    y, mo, da, ho, mn, se = rd(p, 24, 2), rd(p, 27, 1), rd(p, 29, 1), rd(p, 31, 1), rd(p, 33, 1), rd(p, 35, 1)
    b.d('dateTimeString', None if None in (y, mo, da, ho, mn, se) else
        '%d/%02d/%02d, %02d:%02d:%02d' % (y, mo, da, ho, mn, se))
    b.v('profileSignature', p[36:40])
    b.v('primaryPlatform', p[40:44], PLAT)
    fl, at = rd(p, 44, 1), rd(p, 56, 1)

    def bit(v, k):
        return None if v is None else (v >> (8 - k)) & 1
    b.d('embeddedProfile', bit(fl, 1), YN)
    b.d('profileCannotBeUsedIndependently', bit(fl, 2), YN)
    b.v('deviceManufacturer', p[48:52])
    b.v('deviceModel', p[52:56])
    b.d('transparency', bit(at, 1), {0: 'Reflective', 1: 'Transparent'})
    b.d('glossiness', bit(at, 2), {0: 'Glossy', 1: 'Matte'})
    b.d('polarity', bit(at, 3), {0: 'Positive', 1: 'Negative'})
    b.d('colour', bit(at, 4), {0: 'Colour', 1: 'Black and white'})
    b.v('renderingIntent', rd(p, 66, 2), INTENT)
    for i, a in enumerate('XYZ'):
        v = rd(p, 68 + 4 * i, 4)
        b.d('connectionSpaceIlluminant' + a, None if v is None else Num(Fraction(v, 65536), Fraction(51, 1000000)))
    b.v('profileCreator', p[80:84])
    b.v('profileID', p[84:100].hex())
    n = rd(p, 128, 4) or 0
    n = min(n, 4096)
    tags, desc, wild = [], b'', False
    for i in range(n):
        o = 132 + 12 * i
        t, off, sz = p[o:o + 4], rd(p, o + 4, 4), rd(p, o + 8, 4)
        b.v('tag', t)
        if t == b'desc' and b'desc' not in tags:
            if off is None or sz is None:
                wild = True
            else:
                d = p[off:off + sz]
                ln = rd(d, 8, 4)
                if ln is None:
                    wild = True
                elif ln:
                    desc = d[12:12 + ln - 1]
        tags.append(t)
    b.v('description', WILD if wild else desc)
    return b.props, size, p[12:16], tags


def h_pclr(data, c):
    b = B('paletteBox')
    ne, npc = rd(data, 0, 2), rd(data, 2, 1)
    b.v('nE', ne)
    b.t('nEIsValid', within(ne, 1, 1024))
    ne = min(ne or 0, 1024)         # entries beyond the legal maximum are not reported
    b.v('nPC', npc)
    b.t('nPCIsValid', within(npc, 1, 255))
    bs = [rd(data, 3 + i, 1) for i in range(npc or 0)]
    if None in bs:
        # column depths cut off
        for x in bs:
            b.d('bSign', sign_of(x), SIGN)
            b.d('bDepth', depth_of(x))
            b.t('bDepthIsValid', within(depth_of(x), 1, 38))
            for _ in range(ne or 0):
                b.v('cP', WILD)
        return b
    sizes = [((x & 127) + 8) // 8 for x in bs]
    row = sum(sizes)
    base = 3 + len(bs)
    for i, x in enumerate(bs):
        b.v('bSign', x >> 7, SIGN)
        b.v('bDepth', (x & 127) + 1)
        b.t('bDepthIsValid', (x & 127) + 1 <= 38)
        col = base + sum(sizes[:i])
        for j in range(ne or 0):
            o = col + j * row
            v = rd(data, o, sizes[i])
            if v is None and len(data) > o:
                v = WILD
            b.v('cP', v)
    return b


def h_cmap(data, c):
    b = B('componentMappingBox')
    for i in range(len(data) // 4):
        cmp_, mt, pc = rd(data, 4 * i, 2), data[4 * i + 2], data[4 * i + 3]
        b.v('cMP', cmp_)
        b.t('cMPIsValid', cmp_ <= 16384)
        b.v('mTyp', mt, {0: 'direct use', 1: 'palette mapping'})
        b.t('mTypIsValid', mt <= 1)
        b.v('pCol', pc)
        b.t('pColIsValid', mt != 0 or pc == 0)
    return b


def h_cdef(data, c):
    b = B('channelDefinitionBox')
    n = rd(data, 0, 2)
    b.v('n', n)
    b.t('nIsValid', within(n, 1, 65535))
    b.t('boxLengthIsValid', n is not None and len(data) == 2 + 6 * n)
    alpha = []
    allowed = (0, 1, 2, 65535) if c.jp2 else (0, 1, 2, 3, 65535)
    for i in range(n or 0):
        o = 2 + 6 * i
        cn, ct, ca = rd(data, o, 2), rd(data, o + 2, 2), rd(data, o + 4, 2)
        b.v('cN', cn)
        b.t('cNIsValid', cn is not None)
        b.v('cTyp', ct, CTYP)
        if c.fmt in ('jp2', 'jph'):
            b.t('cTypIsValid', ct in allowed)
        b.v('cAssoc', ca, CASSOC)
        b.t('cAssocIsValid', ca is not None)
        if ct in (1, 2):
            alpha.append(ca)
    if c.jph:
        b.t('noMoreThanOneAlphaChannel', len(alpha) < 2)
        for a in alpha:
            b.t('cAssocAlphaChannelIsZero', a == 0)
    return b


def h_res(data, c):
    b, types = superbox('resolutionBox', data, c)
    b.t('containsCaptureOrDisplayResolutionBox', b'resc' in types or b'resd' in types)
    b.t('noMoreThanOneCaptureResolutionBox', types.count(b'resc') < 2)
    b.t('noMoreThanOneDisplayResolutionBox', types.count(b'resd') < 2)
    return b


def _resx(data, letter, name):
    b = B(name)
    b.t('boxLengthIsValid', len(data) == 10)
    vals = {}
    for i, (ax, k) in enumerate((('v', 'N'), ('v', 'D'), ('h', 'N'), ('h', 'D'))):
        v = rd(data, 2 * i, 2)
        vals[ax + k] = v
        b.v('%sR%s%s' % (ax, letter, k), v)
        b.t('%sR%s%sIsValid' % (ax, letter, k), within(v, 1, 65535))
    for i, ax in enumerate('vh'):
        v = rd(data, 8 + i, 1)
        if v is not None and v > 127:
            v -= 256
        vals[ax + 'E'] = v
        b.v('%sR%sE' % (ax, letter), v)
        b.t('%sR%sEIsValid' % (ax, letter), v is not None)
    for unit, f in (('Meter', Fraction(1)), ('Inch', Fraction(254, 10000))):
        for ax in 'vh':
            n, d, e = vals[ax + 'N'], vals[ax + 'D'], vals[ax + 'E']
            if None in (n, d, e) or d == 0:
                x = WILD
            else:
                q = Fraction(n, d) * Fraction(10) ** e * f
                x = Num(q, Fraction(501, 100000) + abs(q) / 10 ** 9)
            b.v('%sRes%sInPixelsPer%s' % (ax, letter, unit), x)
    return b


def h_resc(data, c):
    return _resx(data, 'c', 'captureResolutionBox')


def h_resd(data, c):
    return _resx(data, 'd', 'displayResolutionBox')


def xml_node(data):
    """Tree of well-formed XML, or None."""
    try:
        e = _ET.fromstring(data)
    except Exception:
        return None

    def conv(x):
        n = T(x.tag, clean(x.text) if x.text else (x.text or ''))
        n.attrib = dict(x.attrib)
        n.kids = [conv(k) for k in x]
        return n
    return conv(e)


def _xml(b, data, c):
    n = xml_node(data)
    b.t('containsWellformedXML', n is not None)
    if n is None and c.nullxml:
        n = xml_node(data.rstrip(b'\0'))
    if n is not None:
        b.props.kids.append(n)


def h_xml(data, c):
    b = B('xmlBox')
    _xml(b, data, c)
    return b


def h_uuid(data, c):
    b = B('uuidBox')
    b.t('boxLengthIsValid', len(data) > 16)
    if len(data) < 16:
        b.props.wild = True     # no complete UUID: content of the entry not specified
        return b
    u = str(_uuid.UUID(bytes=data[:16]))
    if u == XMP:
        _xml(b, data[16:], c)
    else:
        b.v('uuid', u)
    return b


def h_uinf(data, c):
    b, types = superbox('uuidInfoBox', data, c)
    b.t('containsOneListBox', types.count(b'ulst') == 1)
    b.t('containsOneURLBox', types.count(b'url ') == 1)
    return b


def h_ulst(data, c):
    b = B('uuidListBox')
    n = rd(data, 0, 2)
    b.v('nU', n)
    b.t('boxLengthIsValid', n is not None and len(data) == 2 + 16 * n)
    for i in range(n or 0):
        u = data[2 + 16 * i:18 + 16 * i]
        if len(u) < 16:
            b.props.wild = True
            break
        b.v('uuid', str(_uuid.UUID(bytes=u)))
    return b


def h_url(data, c):
    b = B('urlBox')
    v = rd(data, 0, 1)
    b.v('version', v)
    b.t('versionIsValid', v == 0)
    b.t('flagIsValid', data[1:4] == b'\0\0\0')
    loc = data[4:]
    b.t('locHasNullTerminator', loc[-1:] == b'\0')
    loc = loc.rstrip(b'\0')
    try:
        loc.decode('utf-8')
        ok = True
    except UnicodeDecodeError:
        ok = False
    b.t('locIsUTF8', ok)
    b.v('loc', loc)
    return b


# ------------------------------------------------------------------ codestream

SOC, SOT, SOD, EOC = b'\xff\x4f', b'\xff\x90', b'\xff\x93', b'\xff\xd9'
NOLEN = (SOC, SOD, EOC, b'\xff\x92')


def segment(data, off):
    """(marker, contents incl. length field, next offset or None)"""
    m = data[off:off + 2]
    if m in NOLEN:
        return m, b'', off + 2
    ln = rd(data, off + 2, 2)
    if ln is None:
        return m, b'', None
    return m, data[off + 2:off + 2 + ln], off + 2 + ln


def capability(r):
    if r is None:
        return None
    x = r >> 14
    if x:
        return {1: 'CAP', 2: 'ISO/IEC 15444-2', 3: 'ISO/IEC 15444-2 + CAP'}[x]
    p, s, m = (r >> 8) & 15, (r >> 4) & 15, r & 15
    ml = ', Mainlevel %d' % m
    sl = '; Sublevel %d' % s
    if p == 0:
        lst = ['ISO/IEC 15444-1', 'Profile 0', 'Profile 1', '2K digital cinema profile', '4K digital cinema profile',
               'Scalable 2K digital cinema profile', 'Scalable 4K digital cinema profile', 'Long-term storage profile']
        return lst[m] if m < len(lst) else 'Unknown (value not defined in ISO/IEC 15444-1)'
    if p <= 3:
        return 'Broadcast Contribution ' + ['Single Tile', 'Multi-tile', 'Multi-tile Reversible'][p - 1] + ' Profile' + ml
    if p <= 9:
        size = ['2k', '4k', '8k'][(p - 4) % 3]
        kind = 'Single Tile Lossy' if p <= 6 else 'Single/Multi Tile Reversible'
        return size + ' IMF ' + kind + ' Profile' + ml + sl
    if (p, s, m) == (15, 15, 15):
        return 'Profile signalled in Profile Marker'
    return 'Unknown (value not defined in ISO/IEC 15444-1)'


def seg_siz(s, c):
    b = B('siz')
    l, r = rd(s, 0, 2), rd(s, 2, 2)
    b.v('lsiz', l)
    b.t('lsizIsValid', within(l, 41, 49190))
    b.v('rsiz', r)
    if r is None:
        b.t('rsizIsValid', WILD)
    elif c.ht:
        b.t('rsizIsValid', r & 0x4000 != 0)
    else:
        b.t('rsizIsValid', r & 0xf000 == 0)
    b.d('capability', capability(r))
    f = []
    for i, nm in enumerate(('xsiz', 'ysiz', 'xOsiz', 'yOsiz', 'xTsiz', 'yTsiz', 'xTOsiz', 'yTOsiz')):
        v = rd(s, 4 + 4 * i, 4)
        f.append(v)
        b.v(nm, v)
        b.t(nm + 'IsValid', within(v, 0, 2 ** 32 - 2) if 'O' in nm else within(v, 1, 2 ** 32 - 1))
    nt = None
    if None not in f:
        xs, ys, _, _, xt, yt, xto, yto = f
        nt = 0
        if xt and yt:
            nt = (-((xto - xs) // xt)) * (-((yto - ys) // yt))
    b.d('numberOfTiles', nt)
    n = rd(s, 36, 2)
    b.v('csiz', n)
    b.t('csizIsValid', within(n, 1, 16384))
    b.t('lsizConsistentWithCsiz', n is not None and l == 38 + 3 * n)
    depths = []
    for i in range(n or 0):
        o = 38 + 3 * i
        ss, xr, yr = rd(s, o, 1), rd(s, o + 1, 1), rd(s, o + 2, 1)
        b.d('ssizSign', sign_of(ss), SIGN)
        b.d('ssizDepth', depth_of(ss))
        b.t('ssizIsValid', within(depth_of(ss), 1, 38))
        b.v('xRsiz', xr)
        b.t('xRsizIsValid', within(xr, 1, 255))
        b.v('yRsiz', yr)
        b.t('yRsizIsValid', within(yr, 1, 255))
        depths.append(depth_of(ss))
    return b, r, n, nt, f, depths


def _spcod(b, s, o, c, precincts, levels):
    """Code block size/style, transformation, precinct sizes, from offset o."""
    w, h = rd(s, o, 1), rd(s, o + 1, 1)
    for nm, v in (('Width', w), ('Height', h)):
        b.d('codeBlock' + nm, None if v is None else 2 ** (v + 2))
        b.t('codeBlock%sExponentIsValid' % nm, within(v, 0, 8))
    b.t('sumHeightWidthExponentIsValid', WILD if None in (w, h) else w + h + 4 <= 12)
    st = rd(s, o + 2, 1)
    only = c.ht and st is not None and st & 0xc0 == 64
    if st is None:
        # which switches are defined is itself undecodable
        b.props.wild = True
    names = ('codingBypass', 'resetOnBoundaries', 'termOnEachPass', 'vertCausalContext', 'predTermination', 'segmentationSymbols')
    for k, nm in enumerate(names):
        if only and k in (1, 4, 5):
            continue
        b.d(nm, None if st is None else (st >> k) & 1, YN)
    tr = rd(s, o + 3, 1)
    b.v('transformation', tr, {0: '9-7 irreversible', 1: '5-3 reversible'})
    b.t('transformationIsValid', tr in (0, 1))
    if levels is None:
        return
    for i in range(levels + 1):
        if precincts == 1:
            p = rd(s, o + 4 + i, 1)
            x, y = (None, None) if p is None else (2 ** (p & 15), 2 ** (p >> 4))
            b.d('precinctSizeX', x)
            b.t('precinctSizeXIsValid', True if i == 0 else (WILD if x is None else x >= 2))
            b.d('precinctSizeY', y)
            b.t('precinctSizeYIsValid', True if i == 0 else (WILD if y is None else y >= 2))
        else:
            b.v('precinctSizeX', 32768)
            b.v('precinctSizeY', 32768)


def seg_cod(s, c):
    b = B('cod')
    l = rd(s, 0, 2)
    b.v('lcod', l)
    b.t('lcodIsValid', within(l, 12, 45))
    sc = rd(s, 2, 1)
    if sc is None:
        b.tests.wild = b.props.wild = True
        return b
    pr = sc & 1
    b.v('precincts', pr, {0: 'default', 1: 'user defined'})
    b.v('sop', (sc >> 1) & 1, YN)
    b.v('eph', (sc >> 2) & 1, YN)
    o, la, m, lev = rd(s, 3, 1), rd(s, 4, 2), rd(s, 6, 1), rd(s, 7, 1)
    b.v('order', o, ORDER)
    b.t('orderIsValid', within(o, 0, 4))
    b.v('layers', la)
    b.t('layersIsValid', within(la, 1, 65535))
    b.v('multipleComponentTransformation', m, YN)
    b.t('multipleComponentTransformationIsValid', within(m, 0, 1))
    b.v('levels', lev)
    b.t('levelsIsValid', within(lev, 0, 32))
    b.t('lcodConsistencyCheck', (WILD if lev is None else l == 13 + lev) if pr else l == 12)
    _spcod(b, s, 8, c, pr, lev)
    return b


def cindex(s, n):
    """Component index and offset after it."""
    if n is not None and n >= 257:
        return rd(s, 2, 2), 4
    return rd(s, 2, 1), 3


def seg_coc(s, c, n):
    b = B('coc')
    l = rd(s, 0, 2)
    b.v('lcoc', l)
    b.t('lcocIsValid', within(l, 9, 43))
    cc, o = cindex(s, n)
    b.v('ccoc', cc)
    b.t('ccocIsValid', within(cc, 0, 255 if o == 3 else 16383))
    sc = rd(s, o, 1)
    if sc is None:
        b.tests.wild = b.props.wild = True
        return b
    pr = sc & 1
    b.v('precincts', pr, {0: 'default', 1: 'user defined'})
    lev = rd(s, o + 1, 1)
    b.v('levels', lev)
    b.t('levelsIsValid', within(lev, 0, 32))
    base = 9 if o == 3 else 10
    b.t('lcocConsistencyCheck', (WILD if lev is None else l == base + 1 + lev) if pr else l == base)
    _spcod(b, s, o + 2, c, pr, lev)
    return b


def seg_rgn(s, c, n):
    b = B('rgn')
    l = rd(s, 0, 2)
    b.v('lrgn', l)
    b.t('lrgnIsValid', within(l, 5, 6))
    cc, o = cindex(s, n)
    b.v('crgn', cc)
    b.t('crgnIsValid', within(cc, 0, 255 if o == 3 else 16383))
    st, sh = rd(s, o, 1), rd(s, o + 1, 1)
    b.v('roiStyle', st, {0: 'Implicit ROI (maximum shift)'})
    b.t('roiStyleIsValid', st == 0)
    b.v('roiShift', sh)
    b.t('roiShiftIsValid', within(sh, 0, 37 if c.ht else 255))
    return b


def _quant(b, s, o, l):
    """Quantization style and step sizes from offset o on."""
    sq = rd(s, o, 1)
    if sq is None:
        b.d('qStyle', None)
        b.t('qStyleIsValid', WILD)
        b.d('guardBits', None)
        b.props.wild = True
        return
    st = sq & 31
    b.v('qStyle', st, QSTYLE)
    b.t('qStyleIsValid', st <= 2)
    b.v('guardBits', sq >> 5)
    base = o + 2        # length with style 0 and no decomposition levels
    if st == 0:
        lev = max(0, l - base) // 3
        for i in range(lev):
            v = rd(s, o + 1 + i, 1)
            b.d('epsilon', None if v is None else v >> 3)
    elif st in (1, 2):
        cnt = 1 if st == 1 else max(0, l - base - 1) // 6
        for i in range(cnt):
            v = rd(s, o + 1 + 2 * i, 2)
            b.d('mu', None if v is None else v & 2047)
            b.d('epsilon', None if v is None else v >> 11)


def seg_qcd(s, c):
    b = B('qcd')
    l = rd(s, 0, 2)
    b.v('lqcd', l)
    b.t('lqcdIsValid', within(l, 4, 197))
    _quant(b, s, 2, l if l is not None else 0)
    return b


def seg_qcc(s, c, n):
    b = B('qcc')
    l = rd(s, 0, 2)
    b.v('lqcc', l)
    b.t('lqccIsValid', within(l, 5, 199))
    cc, o = cindex(s, n)
    b.v('cqcc', cc)
    _quant(b, s, o, l if l is not None else 0)
    return b


def seg_poc(s, c, n):
    b = B('poc')
    l = rd(s, 0, 2)
    b.v('lpoc', l)
    b.t('lpocIsValid', within(l, 9, 65535))
    wide = n is not None and n >= 257
    w = 2 if wide else 1
    cnt = max(0, (l if l is not None else 0) - 2) // (9 if wide else 7)
    o = 2
    for _ in range(cnt):
        rs, cs, ly = rd(s, o, 1), rd(s, o + 1, w), rd(s, o + 1 + w, 2)
        re, ce, od = rd(s, o + 3 + w, 1), rd(s, o + 4 + w, w), rd(s, o + 4 + 2 * w, 1)
        o += 5 + 2 * w
        b.v('rspoc', rs)
        b.t('rspocIsValid', within(rs, 0, 32))
        b.v('cspoc', cs)
        b.t('cspocIsValid', within(cs, 0, 16383 if wide else 255))
        b.v('lyepoc', ly)
        b.t('lyepocIsValid', within(ly, 1, 65535))
        b.v('repoc', re)
        b.t('repocIsValid', False if re is None else (WILD if rs is None else rs + 1 <= re <= 33))
        b.v('cepoc', ce)
        b.t('cepocIsValid', False if ce is None else
            (True if ce == 0 else (WILD if cs is None else cs + 1 <= ce <= (16384 if wide else 255))))
        b.v('order', od, ORDER)
        b.t('orderIsValid', within(od, 0, 4))
    return b


def seg_crg(s, c, n):
    b = B('crg')
    l = rd(s, 0, 2)
    b.v('lcrg', l)
    b.t('lcrgIsValid', within(l, 6, 65534))
    for i in range(n or 0):
        for k, nm in enumerate(('xcrg', 'ycrg')):
            v = rd(s, 2 + 4 * i + 2 * k, 2)
            b.v(nm, v)
            b.t(nm + 'IsValid', v is not None)
    return b


def seg_com(s, c):
    b = B('com')
    l, r = rd(s, 0, 2), rd(s, 2, 2)
    b.v('lcom', l)
    b.t('lcomIsValid', within(l, 5, 65535))
    b.v('rcom', r, {0: 'binary', 1: 'ISO/IEC 8859-15 (Latin)'})
    b.t('rcomIsValid', within(r, 0, 1))
    raw = s[4:] if l is None else s[4:l]
    if r == 0:
        b.t('commentIsValid', True)
        b.v('comment', raw.hex())
    elif r == 1:
        if 0xad in raw:
            b.tests.wild = b.props.wild = True      # soft hyphen: not specified
            return b
        txt = raw.decode('iso-8859-15')
        ok = clean(txt) == txt
        b.t('commentIsValid', ok)
        if ok:
            b.v('comment', txt)
    else:
        b.t('commentIsValid', False)
    return b


def seg_cap(s, c):
    b = B('cap')
    l, p = rd(s, 0, 2), rd(s, 2, 4)
    b.v('lcap', l)
    if p is None:
        b.tests.wild = b.props.wild = True
        return b
    parts = [i for i in range(1, 33) if p >> (32 - i) & 1]
    for i in parts:
        b.v('pcapPart', i)
    b.t('lcapIsValid', l == 6 + 2 * len(parts))
    if c.ht:
        b.t('pcap15IsValid', 15 in parts)
        if 15 in parts:
            v = rd(s, 6 + 2 * parts.index(15), 2)
            if v is None:
                b.props.wild = True
                return b
            b.v('htCodeBlocks', v & 0xc000, {0: 'HTONLY', 32768: 'HTDECLARED', 49152: 'MIXED'})
            b.v('htSets', (v >> 13) & 1, {0: 'SINGLEHT', 1: 'MULTIHT'})
            b.v('htRegion', (v >> 12) & 1, {0: 'RGNFREE', 1: 'RGN'})
            b.v('htHomogeneous', (v >> 11) & 1, {0: 'HOMOGENEOUS', 1: 'HETEROGENEOUS'})
            b.v('htReversible', (v >> 5) & 1, {0: 'HTREV', 1: 'HTIRV'})
            q = v & 31
            b.v('htB', 8 if q == 0 else (q + 8 if q < 20 else (4 * (q - 19) + 27 if q < 31 else 74)))
    return b


def _profile_number(s, l, base):
    cnt = max(0, (l or 0) - 2) // 2
    vals = [rd(s, 2 + 2 * i, 2) for i in range(cnt)]
    if None in vals:
        return None, vals
    return base + sum(v << (16 * i) for i, v in enumerate(vals)), vals


def seg_prf(s, c):
    b = B('prf')
    l = rd(s, 0, 2)
    b.v('lprf', l)
    b.t('lprfIsValid', within(l, 4, 65534))
    num, vals = _profile_number(s, l, 4095)
    if vals:
        b.t('pprfIsValid', WILD if vals[-1] is None else vals[-1] != 0)
    b.t('PRFnumIsValid', WILD if num is None else num > 4095)
    b.d('PRFnum', num)
    return b


def seg_cpf(s, c):
    b = B('cpf')
    l = rd(s, 0, 2)
    b.v('lcpf', l)
    num, vals = _profile_number(s, l, -1)
    if c.ht:
        b.t('lcpfIsValid', within(l, 4, 65534))
        if vals:
            b.t('pcpfIsValid', WILD if vals[-1] is None else vals[-1] != 0)
    b.d('CPFnum', num)
    return b


def packet_lengths(raw):
    """Complete packet lengths in raw; trailing incomplete one flagged."""
    out, cur, open_ = [], 0, False
    for x in raw:
        cur = (cur << 7) | (x & 127)
        open_ = x & 128 != 0
        if not open_:
            out.append(cur)
            cur = 0
    return out, open_


class Lengths:
    """Expected comma separated list of hexadecimal packet lengths."""

    def __init__(self, vals, tail):
        self.vals, self.tail = vals, tail

    def __repr__(self):
        return 'Lengths(%r,%r)' % (self.vals, self.tail)

    def match(self, text):
        items = [x for x in (text or '').split(',') if x != '']
        try:
            got = [int(x, 16) for x in items]
        except ValueError:
            return False
        if self.tail:
            return got[:len(self.vals)] == self.vals and len(got) - len(self.vals) <= 1
        return got == self.vals


def seg_plx(s, c, name, off):
    b = B(name)
    l, z = rd(s, 0, 2), rd(s, 2, 1)
    b.v('l' + name, l)
    b.v('z' + name, z)
    if off == 4:
        b.v('nplm', rd(s, 3, 1))
    vals, tail = packet_lengths(s[off:])
    b.props.add('i' + name, Lengths(vals, tail))
    return b


MAIN = {b'\xff\x52': 'cod', b'\xff\x53': 'coc', b'\xff\x5c': 'qcd', b'\xff\x5d': 'qcc', b'\xff\x5e': 'rgn',
        b'\xff\x5f': 'poc', b'\xff\x63': 'crg', b'\xff\x64': 'com', b'\xff\x50': 'cap', b'\xff\x56': 'prf',
        b'\xff\x59': 'cpf', b'\xff\x55': 'tlm', b'\xff\x57': 'plm', b'\xff\x60': 'ppm'}
TILE = {b'\xff\x52': 'cod', b'\xff\x53': 'coc', b'\xff\x5c': 'qcd', b'\xff\x5d': 'qcc', b'\xff\x5e': 'rgn',
        b'\xff\x5f': 'poc', b'\xff\x64': 'com', b'\xff\x58': 'plt', b'\xff\x61': 'ppt'}


def seg_any(nm, s, c, n):
    if nm in ('coc', 'qcc', 'rgn', 'poc', 'crg'):
        return {'coc': seg_coc, 'qcc': seg_qcc, 'rgn': seg_rgn, 'poc': seg_poc, 'crg': seg_crg}[nm](s, c, n)
    if nm in ('cod', 'qcd', 'com', 'cap', 'prf', 'cpf'):
        return {'cod': seg_cod, 'qcd': seg_qcd, 'com': seg_com, 'cap': seg_cap, 'prf': seg_prf, 'cpf': seg_cpf}[nm](s, c)
    if nm == 'plm':
        return seg_plx(s, c, 'plm', 4)
    if nm == 'plt':
        return seg_plx(s, c, 'plt', 3)
    return B(nm)            # tlm, ppm, ppt: presence only


def dup_free(vals):
    return len(set(vals)) == len(vals)


def tile_part(data, start, c, n):
    """(builder, tile index, declared parts, psot)"""
    b = B('tilePart')
    m, s, nxt = segment(data, start)
    sot = B('sot')
    l, isot, psot, tp, tn = rd(s, 0, 2), rd(s, 2, 2), rd(s, 4, 4), rd(s, 8, 1), rd(s, 9, 1)
    sot.v('lsot', l)
    sot.t('lsotIsValid', l == 10)
    sot.v('isot', isot)
    sot.t('isotIsValid', within(isot, 0, 65534))
    sot.v('psot', psot)
    sot.t('psotIsValid', WILD if psot is None else not 1 <= psot <= 13)
    sot.v('tpsot', tp)
    sot.t('tpsotIsValid', within(tp, 0, 254))
    sot.v('tnsot', tn)
    b.sub(sot)
    counts = {'plt': 0, 'ppt': 0}
    seen = set()
    comps = {'coc': [], 'qcc': []}
    wildcomp = False
    off = nxt
    while off is not None and m != SOD:
        m, s, off = segment(data, off)
        nm = TILE.get(m)
        if nm is None:
            continue
        sb = seg_any(nm, s, c, n)
        if nm in counts:
            counts[nm] += 1
            if sb.tests.kids:
                b.tests.kids.append(sb.tests)
            if c.pm:
                b.props.kids.append(sb.props)
        else:
            b.sub(sb)
        seen.add(nm)
        if nm in comps:
            v = cindex(s, n)[0]
            comps[nm].append(v)
    b.t('foundSODMarker', m == SOD)
    b.v('pltCount', counts['plt'])
    b.v('pptCount', counts['ppt'])
    for nm in ('cod', 'coc', 'qcd', 'qcc', 'rgn'):
        if nm in seen:
            b.t(nm.upper() + 'Allowed', tp == 0)
    if comps['coc']:
        b.t('maxOneCcocPerComponentTP', dup_free(comps['coc']))
    if comps['qcc']:
        b.t('maxOneCqccPerComponentTP', dup_free(comps['qcc']))
    if psot is None:
        b.t('foundNextTilePartOrEOC', WILD)
    elif psot != 0:
        b.t('foundNextTilePartOrEOC', data[start + psot:start + psot + 2] in (SOT, EOC))
    return b, isot, tn, psot


def h_codestream(data, c, root=None):
    b = B(root or 'contiguousCodestreamBox')
    m, s, off = segment(data, 0)
    b.t('codestreamStartsWithSOCMarker', m == SOC)
    if off is None:
        m = b''
    else:
        m, s, off = segment(data, off)
    b.t('foundSIZMarker', m == b'\xff\x51')
    if m != b'\xff\x51':
        return b
    sb, rsiz, n, nt, f, depths = seg_siz(s, c)
    b.sub(sb)
    found = set()
    counts = {'plm': 0, 'ppm': 0}
    comps = {'coc': [], 'qcc': []}
    here = off
    while m != SOT and off is not None:
        here = off
        m, s, off = segment(data, here)
        nm = MAIN.get(m)
        if nm is None:
            continue
        found.add(nm)
        sb = seg_any(nm, s, c, n)
        if nm in counts:
            counts[nm] += 1
            if sb.tests.kids:
                b.tests.kids.append(sb.tests)
            if c.pm:
                b.props.kids.append(sb.props)
        else:
            b.sub(sb)
        if nm in comps:
            comps[nm].append(cindex(s, n)[0])
    b.v('ppmCount', counts['ppm'])
    b.v('plmCount', counts['plm'])
    b.t('foundCODMarker', 'cod' in found)
    b.t('foundQCDMarker', 'qcd' in found)
    if rsiz is not None and rsiz >> 14 == 1:
        b.t('foundCAPMarker', 'cap' in found)
    tt, tpr = T('tileParts'), T('tileParts')
    if nt is None:
        tt.wild = tpr.wild = True
        tt.text = WILD
        b.t('foundExpectedNumberOfTiles', WILD)
        b.tests.add('foundExpectedNumberOfTileParts', WILD)
        b.tests.kids[-1].wild = True
    else:
        expected = min(nt, 65535)
        order, per, declared = [], {}, {}
        stray = False
        pos = here
        while m == SOT:
            m = data[pos:pos + 2]
            if m != SOT:
                break
            tb, isot, tn, psot = tile_part(data, pos, c, n)
            if tb.tests.kids:
                tt.kids.append(tb.tests)
            tpr.kids.append(tb.props)
            if tn != 0:
                declared[isot] = tn
            if isot is None or not 0 <= isot < expected:
                stray = True
                break
            per[isot] = per.get(isot, 0) + 1
            if not psot:
                break
            pos += psot
        b.t('foundExpectedNumberOfTiles', not stray and len(per) == expected)
        if declared:
            b.t('foundExpectedNumberOfTileParts', all(k in per and per[k] == v for k, v in declared.items()))
    if tt.kids or tt.wild:
        b.tests.kids.append(tt)
    b.props.kids.append(tpr)
    if comps['coc']:
        b.t('maxOneCcocPerComponentMain', dup_free(comps['coc']))
    if comps['qcc']:
        b.t('maxOneCqccPerComponentMain', dup_free(comps['qcc']))
    b.t('foundEOCMarker', data[-2:] == EOC)
    if c.fmt in ('j2c', 'jhc'):
        xs, ys, xo, yo = f[:4]
        if None in f[:4] or None in depths or n is None:
            b.v('compressionRatio', WILD)
        else:
            b.v('compressionRatio', ratio(depths, ys - yo, xs - xo, len(data)))
    return b


def ratio(depths, h, w, size):
    if size == 0:
        return WILD
    q = Fraction(sum(depths), 8) * h * w / size
    return Num(q, Fraction(501, 100000) + abs(q) / 10 ** 9)


HANDLERS = {'intellectualPropertyBox': h_ipr, 'xmlBox': h_xml, 'uuidBox': h_uuid, 'uuidInfoBox': h_uinf,
            'signatureBox': h_sig, 'fileTypeBox': h_ftyp, 'jp2HeaderBox': h_jp2h, 'imageHeaderBox': h_ihdr,
            'bitsPerComponentBox': h_bpcc, 'colourSpecificationBox': h_colr, 'paletteBox': h_pclr,
            'componentMappingBox': h_cmap, 'channelDefinitionBox': h_cdef, 'resolutionBox': h_res,
            'contiguousCodestreamBox': h_codestream, 'captureResolutionBox': h_resc, 'displayResolutionBox': h_resd,
            'uuidListBox': h_ulst, 'urlBox': h_url}


# ------------------------------------------------------------------ whole file

def h_file(data, c):
    b, types = superbox('root', data, c)
    for nm, ty in (('SignatureBox', b'jP  '), ('FileTypeBox', b'ftyp'), ('JP2HeaderBox', b'jp2h'),
                   ('ContiguousCodestreamBox', b'jp2c')):
        b.t('contains' + nm, ty in types)
    ih = b.props.find('jp2HeaderBox', 'imageHeaderBox')
    ipr = b.props.find('jp2HeaderBox', 'imageHeaderBox', 'iPR')
    if ipr is not None and ipr.text == 'yes':
        b.t('containsIntellectualPropertyBox', b'jp2i' in types)
    b.t('firstBoxIsSignatureBox', types[:1] == [b'jP  '])
    b.t('secondBoxIsFileTypeBox', types[1:2] == [b'ftyp'])
    ok = b'jp2h' in types and b'jp2c' in types and types.index(b'jp2c') > types.index(b'jp2h') > 1
    b.t('locationJP2HeaderBoxIsValid', ok)
    for nm, ty in (('SignatureBox', b'jP  '), ('FileTypeBox', b'ftyp'), ('JP2HeaderBox', b'jp2h')):
        b.t('noMoreThanOne' + nm, types.count(ty) < 2)
    siz = b.props.find('contiguousCodestreamBox', 'siz')
    if ih is not None and siz is not None:
        def num(node, nm):
            t = node.find(nm).text
            return None if t == '-9999' or t is WILD else int(t)
        h, w, nc = num(ih, 'height'), num(ih, 'width'), num(ih, 'nC')
        ys, yo, xs, xo, cs = (num(siz, k) for k in ('ysiz', 'yOsiz', 'xsiz', 'xOsiz', 'csiz'))
        b.t('heightConsistentWithSIZ', WILD if None in (h, ys, yo) else h == ys - yo)
        b.t('widthConsistentWithSIZ', WILD if None in (w, xs, xo) else w == xs - xo)
        b.t('nCConsistentWithSIZ', WILD if None in (nc, cs) else nc == cs)
        sg, dp = ih.find('bPCSign').text, ih.find('bPCDepth').text
        if (sg, dp) == ('signed', '128'):
            bp = b.props.find('jp2HeaderBox', 'bitsPerComponentBox')
            sgs = [k.text for k in bp.all('bPCSign')] if bp else []
            dps = [k.text for k in bp.all('bPCDepth')] if bp else []
        else:
            sgs, dps = [sg] * (nc or 0), [dp] * (nc or 0)
        for nm, mine, theirs in (('Sign', sgs, [k.text for k in siz.all('ssizSign')]),
                                 ('Depth', dps, [k.text for k in siz.all('ssizDepth')])):
            b.t('bPC%sConsistentWithSIZ' % nm, WILD if WILD in mine or WILD in theirs else mine == theirs)
        if WILD in dps or h is None or w is None or nc is None:
            b.v('compressionRatio', WILD)
        else:
            b.v('compressionRatio', ratio([int(x) for x in dps], h, w, len(data)))
    return b


def verdict(tests):
    """True / False / None"""
    st = [False, False]

    def rec(n):
        if n.wild:
            st[1] = True
        if n.text == 'False':
            st[0] = True
        elif n.text is WILD:
            st[1] = True
        for k in n.kids:
            rec(k)
    rec(tests)
    if st[0]:
        return False
    return None if st[1] else True


def analyse(data, fmt, pm=False, nullxml=False):
    c = Ctx(fmt, pm, nullxml)
    r = Result()
    if fmt in ('jp2', 'jph'):
        b = h_file(data, c)
    else:
        b = h_codestream(data, c, 'root')
    b.tests.tag, b.props.tag = 'tests', 'properties'
    r.tests, r.props, r.warns = b.tests, b.props, c.warns
    r.valid = verdict(b.tests)
    return r
