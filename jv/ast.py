"""Abstract JPEG 2000 files: boxes, marker segments, tile-parts and fields that
serialise to bytes.  Lengths are computed unless overridden."""


class Node:
    kids = ()
    name = ''

    def ser(self, last=False):
        raise NotImplementedError


class F(Node):
    """Unsigned big-endian integer field."""
    __slots__ = ('name', 'size', 'val')

    def __init__(self, name, size, val):
        self.name, self.size, self.val = name, size, val

    def ser(self, last=False):
        return (self.val & ((1 << (8 * self.size)) - 1)).to_bytes(self.size, 'big')


class R(Node):
    """Raw bytes."""
    __slots__ = ('name', 'data')

    def __init__(self, name, data):
        self.name, self.data = name, data

    def ser(self, last=False):
        return self.data


class Cont(Node):
    """Plain sequence of nodes."""

    def __init__(self, name, kids):
        self.name, self.kids = name, list(kids)

    def ser(self, last=False):
        n = len(self.kids)
        return b''.join(k.ser(last=last and i == n - 1) for i, k in enumerate(self.kids))


class Box(Cont):
    """lmode: 'l' 4-byte length, 'x' extended length, '0' to the end (only if last)."""

    def __init__(self, typ, name, kids, lmode='l'):
        Cont.__init__(self, name, kids)
        self.typ, self.lmode, self.lbox = typ, lmode, None

    def ser(self, last=False):
        n = len(self.kids)
        body = b''.join(k.ser(last=i == n - 1) for i, k in enumerate(self.kids))
        mode = self.lmode
        if mode == '0' and not last:
            mode = 'l'
        if self.lbox is not None:
            return (self.lbox & 0xffffffff).to_bytes(4, 'big') + self.typ + body
        if mode == 'x':
            return b'\0\0\0\1' + self.typ + (len(body) + 16).to_bytes(8, 'big') + body
        if mode == '0':
            return b'\0\0\0\0' + self.typ + body
        return (len(body) + 8).to_bytes(4, 'big') + self.typ + body


class Seg(Cont):
    """Marker segment; length = contents + 2 unless overridden."""

    def __init__(self, code, name, kids, length=None):
        Cont.__init__(self, name, kids)
        self.code, self.length = code, length

    def ser(self, last=False):
        body = Cont.ser(self)
        ln = len(body) + 2 if self.length is None else self.length
        return self.code + (ln & 0xffff).to_bytes(2, 'big') + body


class Mark(Node):
    """Delimiting marker without length."""

    def __init__(self, code, name):
        self.code, self.name = code, name

    def ser(self, last=False):
        return self.code


class TP(Cont):
    """Tile-part.  kids: header segments, SOD, data.  psot None = computed."""

    def __init__(self, isot, tpsot, tnsot, kids, psot=None, lsot=None):
        Cont.__init__(self, 'tilePart', kids)
        self.isot, self.tpsot, self.tnsot = isot, tpsot, tnsot
        self.psot, self.lsot = psot, lsot

    def ser(self, last=False):
        body = Cont.ser(self)
        sot = b''.join(f.ser() for f in (self.isot,))
        ps = len(body) + 12 if self.psot is None else self.psot
        sot += (ps & 0xffffffff).to_bytes(4, 'big') + self.tpsot.ser() + self.tnsot.ser()
        ls = 10 if self.lsot is None else self.lsot
        return b'\xff\x90' + (ls & 0xffff).to_bytes(2, 'big') + sot + body


def walk(node, path=()):
    """Yield (node, parent, index)."""
    for i, k in enumerate(node.kids):
        yield k, node, i
        yield from walk(k)


def fields(root):
    out = []
    for k, par, i in walk(root):
        if isinstance(k, F):
            out.append(k)
        elif isinstance(k, TP):
            out.extend((k.isot, k.tpsot, k.tnsot))
    return out


def containers(root):
    out = [root]
    for k, par, i in walk(root):
        if isinstance(k, Cont):
            out.append(k)
    return out
