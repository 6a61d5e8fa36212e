"""Generator of XML documents, with the tree they stand for (round-trip oracle)."""

TAGS = ['a', 'b', 'meta', 'Description', 'order', 'c', 'x-y', 'unkC', 'el.em', 'test', 'isValid', 'file', 'coc', 'transformation', 'width', 'compressionRatio', 'xmlBox', 'siz', 'tileParts', 'comment', '\u00e9l\u00e9ment']
NSS = ['', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#', 'adobe:ns:meta/', 'urn:x', 'http://purl.org/dc/elements/1.1/',
       'http://openpreservation.org/ns/jpylyzer/v2/']
TEXTS = ['', 'text', 'e\u0301 \u0928\u093f', 'a\n\n \nb', '\u00a0', '0.0', '-1', 'null', '&amp;', '%d', '\\n', '0', '1', 'a & b < c > d', '  spaced  ', 'line1\nline2', '\u00e9\u4e2d\U0001f600', 'True', 'False', "q'q\"q", 'tab\there', ']]>', '7', '65535']
ATTRS = ['id', 'about', 'lang', 'n', 'format']


class X:
    """Expected element: tag in Clark notation, attributes, text, children, tail."""

    def __init__(self, tag, attrib, text, kids, tail=''):
        self.tag, self.attrib, self.text, self.kids, self.tail = tag, attrib, text, kids, tail


def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s


def gen_tree(ch, depth=0):
    ns = NSS[ch.n(len(NSS))] if ch.p(50) else ''
    tag = ch.pick(TAGS)
    attrib = {}
    for _ in range(ch.n(3)):
        ans = NSS[ch.n(len(NSS))] if ch.p(30) else ''
        a = ch.pick(ATTRS)
        attrib[('{%s}%s' % (ans, a)) if ans else a] = ch.pick(TEXTS)
    text = ch.pick(TEXTS)
    kids = []
    if depth < 3:
        for _ in range(ch.n(3) if not ch.p(10) else ch.n(6)):
            k = gen_tree(ch, depth + 1)
            if ch.p(30):
                k.tail = ch.pick(TEXTS)
            kids.append(k)
    return X(('{%s}%s' % (ns, tag)) if ns else tag, attrib, text, kids)


def split(tag):
    if tag[0] == '{':
        i = tag.index('}')
        return tag[1:i], tag[i + 1:]
    return '', tag


def text_out(ch, s):
    if s and ']]>' not in s and ch.p(15):
        return '<![CDATA[' + s + ']]>'
    if s and ch.p(10):
        return ''.join('&#%d;' % ord(c) for c in s)
    return esc(s)


def to_text(ch, x, scope):
    """Serialise with prefixes declared on the fly."""
    scope = dict(scope)
    decl = ''
    ns, local = split(x.tag)

    def prefix(n, attr=False):
        nonlocal decl
        for p, u in scope.items():
            if u == n and (p or not attr):
                return p
        p = 'p%d' % len(scope)
        scope[p] = n
        decl += ' xmlns:%s="%s"' % (p, esc(n, True))
        return p

    if ns == '':
        if scope.get('', ''):
            scope[''] = ''
            decl += ' xmlns=""'
        nm = local
    elif ch.p(30):
        if scope.get('', '') != ns:
            scope[''] = ns
            decl += ' xmlns="%s"' % esc(ns, True)
        nm = local
    else:
        p = prefix(ns)
        nm = p + ':' + local if p else local
    atts = ''
    for k, v in x.attrib.items():
        ans, al = split(k)
        if ans:
            al = prefix(ans, True) + ':' + al
        atts += ' %s="%s"' % (al, esc(v, True))
    inner = text_out(ch, x.text)
    extra = ''
    for k in x.kids:
        inner += to_text(ch, k, scope) + text_out(ch, k.tail)
    if not inner:
        return '<%s%s%s/>' % (nm, decl, atts)
    return '<%s%s%s>%s</%s>' % (nm, decl, atts, inner, nm)


def gen_xml(ch):
    """(bytes, expected tree)"""
    x = gen_tree(ch)
    if ch.p(25):
        # an XMP packet the MIX generator looks into
        x = gen_xmp(ch)
    body = to_text(ch, x, {})
    k = ch.n(9)
    if k == 7:
        tail = ch.pick(['', '\n', ' ', '   \n\t ', '<!-- c -->', '<?xpacket end="w"?>', ' ' * 2000])
        enc, bom = ch.pick([('utf-16-be', b'\xfe\xff'), ('utf-16-le', b'\xff\xfe')])
        head = ch.pick(['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-16"?>\n', '<!-- \u4e2d -->', '\n'])
        return bom + (head + body + tail).encode(enc), x
    if k == 8:
        head = ch.pick(['\n', '<!-- c -->', '<?xml version=\'1.0\' standalone="yes"?>', '<!DOCTYPE a>', '<?pi data?>', '<?xml version="1.0" encoding="utf-8" ?>\r\n'])
        tail = ch.pick(['', '\n', ' ' * 3000, '<!-- c -->\n', '\r\n', '\t', '<?x?>', '\n' * 5])
        return (head + body + tail).encode('utf-8'), x
    if k == 1:
        return ('<?xml version="1.0" encoding="UTF-8"?>\n' + body + '\n').encode('utf-8'), x
    if k == 2:
        return b'\xef\xbb\xbf' + body.encode('utf-8'), x
    if k == 3:
        return ('<?xml version="1.0" encoding="UTF-16"?>' + body).encode('utf-16'), x
    if k == 4:
        return ('<?xml version="1.0" encoding="ISO-8859-1"?>' + body).encode('iso-8859-1', 'xmlcharrefreplace') \
            if body.encode('ascii', 'replace').decode() == body or all(ord(c) < 256 for c in body) else body.encode('utf-8'), x
    if k == 5:
        return ('<?xpacket begin="" id="W5M0"?>' + body + '<?xpacket end="w"?>   ').encode('utf-8'), x
    return body.encode('utf-8'), x


RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'
XAP = 'http://ns.adobe.com/xap/1.0/'
TIFF = 'http://ns.adobe.com/tiff/1.0/'
AUX = 'http://ns.adobe.com/exif/1.0/aux/'
XMP_PROPS = [(XAP, 'CreateDate', ['2010-09-30T13:35:09-04:00', '2020']), (TIFF, 'Artist', ['Jane Doe', ' A ']),
             (TIFF, 'Make', ['CANON', 'Fuji ']), (TIFF, 'Model', ['EOS-1']), (AUX, 'SerialNumber', ['123', ' 77']),
             (XAP, 'CreatorTool', ['Adobe Photoshop 7.0', 'gimp', 'Tool 1.2.3', 'X 1.0 beta', ' 9', 'Foo 2 3.1', 'Scan  1.0', 'V 5 build 7', '3.2', 'a 1.', 'Tool v2.0'])]


def gen_xmp(ch):
    attrib, kids = {}, []
    for ns, tag, vals in XMP_PROPS:
        k = ch.n(3)
        v = ch.pick(vals)
        if k == 1:
            kids.append(X('{%s}%s' % (ns, tag), {}, v, []))
        elif k == 2:
            attrib['{%s}%s' % (ns, tag)] = v
        if ch.p(6):
            # both forms, or more than one of them; empty ones
            kids.append(X('{%s}%s' % (ns, tag), {}, ch.pick(['', 'second', ' ', v]), []))
            attrib['{%s}%s' % (ns, tag)] = ch.pick(['', 'third', v])
    for _ in range(ch.pick([0, 0, 0, 1, 2])):
        # the same names in other namespaces, or deeper down
        ns, tag, vals = ch.pick(XMP_PROPS)
        other = ch.pick(['{http://other.example/}', '', '{%s}' % (TIFF if ns != TIFF else XAP), '{%s}' % RDF]) + tag
        k = ch.n(4)
        if k == 0:
            kids.insert(ch.n(len(kids) + 1), X(other, {}, 'decoy', []))
        elif k == 1:
            attrib[other] = 'decoy'
        elif k == 2:
            kids.insert(0, X('{%s}Bag' % RDF, {'{%s}%s' % (ns, tag): 'decoy'}, '', [X('{%s}%s' % (ns, tag), {}, 'decoy', [])]))
        else:
            kids.insert(ch.n(len(kids) + 1), X('{%s}%s' % (ns, tag + 'Other'), {}, 'decoy', []))
    desc = X('{%s}Description' % RDF, attrib, '', kids)
    inner = [desc]
    k = ch.n(12)
    if k == 1:
        inner = []
    elif k == 2:
        inner = [X('{%s}Bag' % RDF, {}, 'x', [])]
    elif k == 3:
        inner = [desc, X('{%s}Description' % RDF, {'{%s}CreateDate' % XAP: '1999'}, '', [])]
    elif k == 4:
        inner = [X('{%s}Bag' % RDF, {}, '', []), desc]
    elif k == 5:
        inner = [X(ch.pick(['{http://other.example/}', '', '{%s}' % XAP]) + 'Description', {'{%s}CreateDate' % XAP: 'decoy'}, '', [X('{%s}Make' % TIFF, {}, 'decoy', [])])]
        inner.insert(ch.n(2), desc)
    return X('{adobe:ns:meta/}xmpmeta', {}, '', [X('{%s}RDF' % RDF, {}, '', inner)])
